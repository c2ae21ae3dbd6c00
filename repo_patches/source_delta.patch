From e094c6287c734deebaf804ce20a39a9740f67197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 01/67] fix: index_pats_distributed counts a negative patstart
 from the end and stops at the last pattern

A negative patstart was subtracted instead of added, and a patstart + npats past
the last pattern was not clamped, so chunks outside of the data were scheduled:
missing records, a result of the wrong length, or a call that retried for ever.
---
 pyebsdindex/_ebsd_index_parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index c0d0c89..1063bb3 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -275,9 +275,10 @@ def index_pats_distributed(
         )
 
     if patstart < 0:
-        patstart = npatsTotal - patstart
+        patstart = max(0, npatsTotal + patstart)
     if npats <= 0:
         npats = npatsTotal - patstart
+    npats = min(npats, npatsTotal - patstart)
 
     # Now set up the cluster with the indexer
 
-- 
2.43.0


From 3eb42eb0da94a881e7bf509026ac84931bf91e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 02/67] fix: index_pats_distributed accepts an indexer that
 already has its pattern file

With an indexer built on a pattern file and neither patsin nor filename (as
index_pats allows), the call failed with an AttributeError on pats.shape.
---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 1063bb3..998d38c 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -245,7 +245,7 @@ def index_pats_distributed(
 
     if filename is not None:
         indexer.update_file(filename)
-    else:
+    elif pats is not None:
         indexer.update_file(patDim=pats.shape[-2:])
 
     # Differentiate between getting a file to index or an array.
-- 
2.43.0


From d892927d5cf36c7b5732f8ab3ec24e58c768681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 03/67] fix: resubmit a chunk when a band-finding worker
 reports an error

The 'Error' message of GPUWorker.findbands was dropped together with its chunk,
so the number of finished chunks never reached the total and the distributed
call never returned. Treat it like the death of the worker: the chunk goes
back to the queue.
---
 pyebsdindex/_ebsd_index_parallel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 998d38c..e9a3da4 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -536,6 +536,8 @@ def index_pats_distributed(
 
                         cpujobs.append(CPUGPUJob(gjob.jobid, gjob.pstart, gjob.pend, extime=gjob.extime))
                         ngpudone += 1
+                    else:
+                        raise Exception("Error in GPU processing patterns")
 
                     if len(gpujobs) > 0: # still more gpu work to do
                         gjob = gpujobs.pop(0)
@@ -560,9 +562,6 @@ def index_pats_distributed(
                         del gputask[jid]
                         del gtaskindex[jid]
                         time.sleep(0.001)
-                    #else:
-                    #    raise Exception("Error in GPU processing patterns: ", gtaskindex[jid].pstart, gtaskindex[jid].pend)
-
 
 
                 except:
-- 
2.43.0


From f85989ea30c6d4387bd0a256261d4a07ce9ec16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 04/67] fix: do not queue the chunk of a stalled worker twice

When the only band-finding worker got stuck, its chunk was appended to the
queue and also submitted directly. It was then counted twice, and the call
returned while another chunk was still missing (left as zeros).
---
 pyebsdindex/_ebsd_index_parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index e9a3da4..2d8c48c 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -609,6 +609,7 @@ def index_pats_distributed(
                 del gtaskindex[jid]
                 gpujobs.append(gjob)
                 if len(gpuworkers) == 0:
+                    gjob = gpujobs.pop(0)
 
                     gpuworkers.append(  # make a new Ray Actor that can call the indexer defined in shared memory.
                         # These actors are read/write, thus can initialize the GPU queues
-- 
2.43.0


From b402b57563d5a8002c18af730a4e448c53d2f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 05/67] fix: wait longer after each restart of an apparently
 stuck band-finding worker

A worker that had not finished a chunk after about 10 s was killed and its chunk
started again with the same limit, so a chunk (or a worker start) that takes
longer than that was restarted for ever. Double the limit after each restart.
---
 pyebsdindex/_ebsd_index_parallel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 2d8c48c..69e69a5 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -485,6 +485,7 @@ def index_pats_distributed(
         #gpu_launched += 1
 
     gpuwrker_cycles = -500
+    gpuwrker_maxcycles = 100 # cycles without a finished chunk before a gpu worker is considered stuck
     cpuwrker_cycles = 0
 
     while ncpudone < njobs:
@@ -597,9 +598,10 @@ def index_pats_distributed(
                         gtaskindex.append(gjob)
             # toc = timer()
 
-            if gpuwrker_cycles > 100: # a gpu worker got stuck -- see if I can unstick it.
+            if (gpuwrker_cycles > gpuwrker_maxcycles) and (len(busy) > 0): # a gpu worker got stuck -- see if I can unstick it.
                 wrker = busy[0]
                 gpuwrker_cycles = 0
+                gpuwrker_maxcycles *= 2 # might have been slow, not stuck, so be more patient next time.
                 jid = gputask.index(wrker)
                 gjob = gtaskindex[jid]
                 print('A GPU death has occured. Attempting to restart.', gjob.pstart, gjob.pend)
-- 
2.43.0


From 16c5a5081931fe8c6613d53acb2f89a09294e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 06/67] fix: request the same resources for a replacement CPU
 worker as for the original

The replacement asked for a whole CPU, which on a cluster with one CPU (shared
with the band-finding worker) is not available, so indexing stood still.
---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 69e69a5..55ddc3f 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -716,7 +716,7 @@ def index_pats_distributed(
                     if len(cpuworkers) == 0:
                         cpuworkers.append(  # make a new Ray Actor that can call the indexer defined in shared memory.
                             # These actors are read/write, thus can initialize the GPU queues
-                            CPUWorker.options(num_cpus=1, num_gpus=0).remote(0))
+                            CPUWorker.options(num_cpus=ncpucpu_per_worker, num_gpus=0).remote(0))
                         cputask.append(cpuworkers[0].indexpoles.remote(None, None, None))
                         ctaskindex.append(None)
     if verbose > 0:
-- 
2.43.0


From 779101a449b2b179be527de699437497a8c4996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 07/67] fix: give up with an error when a chunk fails on every
 attempt

A chunk whose processing fails every time (or workers that never start) was
retried for ever. Raise after MAXATTEMPTS failures of the same chunk.
---
 pyebsdindex/_ebsd_index_parallel.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 55ddc3f..ad650d4 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -49,6 +49,8 @@ else:
 
 os.environ["GRPC_VERBOSITY"] = "ERROR"
 
+MAXATTEMPTS = 10 # number of times to try the same chunk of patterns before giving up.
+
 RAYIPADDRESS = '127.0.0.1'
 #RAYIPADDRESS = '0.0.0.0'
 OSPLATFORM  = platform.system()
@@ -487,6 +489,8 @@ def index_pats_distributed(
     gpuwrker_cycles = -500
     gpuwrker_maxcycles = 100 # cycles without a finished chunk before a gpu worker is considered stuck
     cpuwrker_cycles = 0
+    # keeps track of the failures of idle CPU workers
+    cpuidlejob = CPUGPUJob(0, patstart, patstart + npats, maxattempts=MAXATTEMPTS * max(1, int(ncpuwrker)))
 
     while ncpudone < njobs:
 
@@ -565,9 +569,10 @@ def index_pats_distributed(
                         time.sleep(0.001)
 
 
-                except:
+                except Exception as e:
                     gjob = gtaskindex[jid]
                     print('A GPU death has occured', gjob.pstart, gjob.pend)
+                    gjob._failed(e)
                     del gpuworkers[jid]
                     del gputask[jid]
                     del gtaskindex[jid]
@@ -646,6 +651,7 @@ def index_pats_distributed(
                 jid = cputask.index(wrker)
                 try:
                     message, (indexdata,bnddata, cjob) = ray.get(wrker)
+                    cpuidlejob.nfailed = 0
                     if message == 'Done':
                         dataout[:, cjob.pstart - patstart: cjob.pend - patstart] = indexdata
                         banddataout[cjob.pstart - patstart: cjob.pend - patstart, :] = bnddata
@@ -708,11 +714,16 @@ def index_pats_distributed(
                     print(e)
                     cjob = ctaskindex[jid]
                     print('A CPU death has occured')
+                    if cjob is None: # the worker was waiting for work, or did not start.
+                        cpuidlejob._failed(e)
+                    else:
+                        cjob._failed(e)
                     ray.kill(cpuworkers[jid])
                     del cpuworkers[jid]
                     del cputask[jid]
                     del ctaskindex[jid]
-                    cpujobs.append(cjob)
+                    if cjob is not None:
+                        cpujobs.append(cjob)
                     if len(cpuworkers) == 0:
                         cpuworkers.append(  # make a new Ray Actor that can call the indexer defined in shared memory.
                             # These actors are read/write, thus can initialize the GPU queues
@@ -915,7 +926,7 @@ class CPUWorker:
 
 
 class CPUGPUJob:
-    def __init__(self,jobid, pstart, pend, extime=0.0):
+    def __init__(self,jobid, pstart, pend, extime=0.0, maxattempts=MAXATTEMPTS):
         self.jobid = jobid
         self.pstart = pstart
         self.pend = pend
@@ -924,6 +935,15 @@ class CPUGPUJob:
         self.endtime = 0.0
         self.extime = extime
         self.rate = 0.0
+        self.nfailed = 0
+        self.maxattempts = maxattempts
+    def _failed(self, error=None):
+        # note that an attempt failed, and give up when that was the last one allowed.
+        self.nfailed += 1
+        if self.nfailed >= self.maxattempts:
+            raise RuntimeError(
+                f"Indexing of patterns {self.pstart} -- {self.pend} failed {self.nfailed} times."
+            ) from error
     def _starttime(self):
         self.starttime = timer()
     def _endtime(self):
-- 
2.43.0


From 177057de17e68ee2f06e2c37cfdf9cab49689e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 08/67] fix: shut down the ray cluster and restore the
 environment when indexing fails

If index_pats_distributed raised (or was interrupted), the cluster with its
workers kept running and CUDA_VISIBLE_DEVICES stayed changed.
---
 pyebsdindex/_ebsd_index_parallel.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index ad650d4..03b8059 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -25,6 +25,7 @@ parallel.
 """
 
 
+import functools
 import os
 import platform
 import logging
@@ -58,6 +59,27 @@ OSPLATFORM  = platform.system()
 #    RAYIPADDRESS = '0.0.0.0'  # the localhost address does not work on macOS when on a VPN
 
 
+def _cleanup_on_error(func):
+    """Shut down the cluster and restore the environment when func
+    does not get to do so because of an error."""
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        cudagpuvis = os.getenv("CUDA_VISIBLE_DEVICES")
+        try:
+            return func(*args, **kwargs)
+        except BaseException:
+            ray.shutdown()
+            if cudagpuvis is not None:
+                os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis
+            else:
+                os.environ.pop("CUDA_VISIBLE_DEVICES", None)
+            raise
+
+    return wrapper
+
+
+@_cleanup_on_error
 def index_pats_distributed(
     patsin=None,
     filename=None,
-- 
2.43.0


From 45db2c285e4d797a53fe6db969360ce1ab5a7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 09/67] fix: read EBSP headers with numpy 2

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c1a0891..d209c5a 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -734,7 +734,7 @@ class EBSPFile(EBSDPatternFile):
       loc0 = 0
       counter = 0
       while loc0 == 0: # check for non-stored points.
-        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1))
+        loc0 = np.int64(np.fromfile(f, dtype=np.uint64, count=1)[0])
         counter += 1
       f.seek(-8*counter, 1) # move back 8 bytes (or however far we needed to move into the file to find a legitamte offset.
 
-- 
2.43.0


From 5d509dbfb15cd10cbc33574bf98c9bb6c586a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 10/67] fix: read_data fails when the header of the file could
 not be read

---
 pyebsdindex/ebsd_pattern.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index d209c5a..63e62b6 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -223,11 +223,14 @@ class EBSDPatternFile():
     pass
 
   def read_data(self,path=None,convertToFloat=False,patStartCount = [0,-1],returnArrayOnly=False):
+    status = None
     if path is not None:
       self.set_filepath(path)
-      self.read_header()
+      status = self.read_header()
     if self.version is None:
-      self.read_header()
+      status = self.read_header()
+    if (status is not None) and (status < 0):
+      raise OSError('Could not read the header of ' + str(self.filepath))
     patStartCount = np.array(patStartCount, dtype=np.int64)
     # bitD = 8 * (self.bitdepth == 8) + 16 * (self.bitdepth == 16)
 
-- 
2.43.0


From 5fb19ae4d864224a814f95a2616612497de0f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 11/67] fix: reading patterns from outside of the scan is an
 error

---
 pyebsdindex/ebsd_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 63e62b6..75405c9 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -255,6 +255,8 @@ class EBSDPatternFile():
     if pStartEnd.ndim == 1: # read a continuous set of patterns.
       patStart = np.int64(patStartCount[0])
       nPatToRead = np.int64(patStartCount[-1])
+      if (patStart < 0) or (patStart > self.nPatterns):
+        raise ValueError('Patterns to read start outside of the file')
       if nPatToRead == -1:
         nPatToRead = np.int64(self.nPatterns - patStart)
       if nPatToRead == 0:
@@ -274,6 +276,8 @@ class EBSDPatternFile():
         ncolread = np.int64(pStartEnd[1,0])
         rowstart = np.int64(pStartEnd[0,1])
         nrowread = np.int64(pStartEnd[1,1])
+        if (colstart < 0) or (rowstart < 0) or (colstart >= self.nCols) or (rowstart >= self.nRows):
+          raise ValueError('Patterns to read start outside of the scan')
 
         patStart = [colstart, rowstart]
         if ncolread < 0:
-- 
2.43.0


From f2003a85df2390e06c4d03088f7ea42a0f90932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 12/67] fix: reading an incomplete EBSP pattern is an error

---
 pyebsdindex/ebsd_pattern.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 75405c9..8fbb7cd 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -924,7 +924,10 @@ class EBSPFile(EBSDPatternFile):
       ii = np.int64(i - patStart)
       if self.filePos[i] > 0:
         f.seek(np.int64(self.filePos[i] + per_pat_head))
-        readpats[ii, :] = np.fromfile(f, dtype=typeread, count=np.int64(nPerPat))
+        onepat = np.fromfile(f, dtype=typeread, count=np.int64(nPerPat))
+        if onepat.size != nPerPat:
+          raise OSError('Pattern ' + str(i) + ' is incomplete in ' + str(self.filepath))
+        readpats[ii, :] = onepat
         if readxypos == True:
           f.seek(xyoffset, 1)
           xyloc[ii, 0] = np.fromfile(f, dtype=np.float64, count=1)
-- 
2.43.0


From ac3337eeb8a6f5c80cd5652bbb9dbb5f13a53c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 13/67] fix: a failure to read the positions of H5OINA patterns
 is an error

---
 pyebsdindex/ebsd_pattern.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 8fbb7cd..1fa7f83 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1818,14 +1818,12 @@ class OXFORDOINA(HDF5PatFile):
   def pat_reader(self, patStart=0, nPatToRead=1):
 
     patterns, xyloc = HDF5PatFile.pat_reader(self, patStart, nPatToRead)
-    try:
-      f = h5py.File(Path(self.filepath).expanduser(),'r')
-      xloc = (f[self.h5patdatpth].parent)["Beam Position X"]
-      xyloc[:,0] = np.array(xloc[np.int64(patStart):np.int64(patStart + nPatToRead)]).astype(np.float32)
-      yloc = (f[self.h5patdatpth].parent)["Beam Position Y"]
-      xyloc[:, 1] = np.array(yloc[np.int64(patStart):np.int64(patStart + nPatToRead)]).astype(np.float32)
-      f.close()
-    except:
-      print("File Not Found:",str(Path(self.filepath)))
+    with h5py.File(Path(self.filepath).expanduser(),'r') as f:
+      data = f[self.h5patdatpth].parent
+      if ("Beam Position X" in data) and ("Beam Position Y" in data):
+        xloc = data["Beam Position X"]
+        xyloc[:,0] = np.array(xloc[np.int64(patStart):np.int64(patStart + nPatToRead)]).astype(np.float32)
+        yloc = data["Beam Position Y"]
+        xyloc[:, 1] = np.array(yloc[np.int64(patStart):np.int64(patStart + nPatToRead)]).astype(np.float32)
 
     return patterns, xyloc
\ No newline at end of file
-- 
2.43.0


From 31be572f139086997ef99bf0ddae21aa125ef089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 14/67] fix: find the raw patterns of H5OINA files without
 processed patterns

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 1fa7f83..3a49188 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1769,7 +1769,7 @@ class OXFORDOINA(HDF5PatFile):
     f.close()
 
     if (len(self.h5datagroups) < 1) and (getraw is False):
-      self.get_data_paths(self, verbose=False, getraw=True)
+      self.get_data_paths(verbose=0, getraw=True)
 
     if len(self.h5datagroups) < 1:
       print("No viable EBSD patterns found:",str(Path(self.filepath)))
-- 
2.43.0


From 1ce0ade9e2b14af5ea841adebfc795ef0aa43418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 15/67] fix: read EBSP files of a single row

---
 pyebsdindex/ebsd_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 3a49188..de5325b 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -863,7 +863,7 @@ class EBSPFile(EBSDPatternFile):
             yall[i] = np.fromfile(f, dtype=np.float64, count=1)
 
 
-        self.xStep = xall[1] - xall[0]
+        self.xStep = xall[1] - xall[0] if self.nPatterns > 1 else 0.0
         if self.xStep > 1e-6:
           ncol = (xall.max() - xall.min()) / self.xStep
           ncol = np.round(ncol+1)
@@ -873,7 +873,7 @@ class EBSPFile(EBSDPatternFile):
         self.nCols = np.uint64(ncol)
 
 
-        self.yStep = yall[0] - yall[self.nCols]
+        self.yStep = yall[0] - yall[self.nCols] if self.nPatterns > self.nCols else 0.0
 
         if self.yStep > 1e-6:
           nrow = (yall.max() - yall.min()) / self.yStep
-- 
2.43.0


From 80186b38db7b2bb1a881b5e103774e9f02e65380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 16/67] fix: do not open HDF5 pattern files for writing to find
 out their vendor

---
 pyebsdindex/ebsd_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index de5325b..7c6219b 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -79,7 +79,7 @@ def get_pattern_file_obj(path,file_type=str('')):
     ebsdfileobj = HDF5PatFile(path) # if the path variable is a list,
     # the second item is set to be the hdf5 path to the patterns.
     try:
-      f = h5py.File(Path(pathtemp[0]).expanduser(),'r+')
+      f = h5py.File(Path(pathtemp[0]).expanduser(),'r')
     except:
       print("File Not Found:",str(Path(pathtemp[0])))
       return -1
@@ -100,6 +100,7 @@ def get_pattern_file_obj(path,file_type=str('')):
       vendor = str(vendor.decode('UTF-8'))
       if vendor >= 'kikuchipy':
         ebsdfileobj = KIKUCHIPYH5(path)
+    f.close()
     if ebsdfileobj.h5patdatpth is None: #automatically chose the first data group
       ebsdfileobj.get_data_paths()
       ebsdfileobj.set_data_path(pathindex=0)
-- 
2.43.0


From 5a9e27cbb0351ba32f7e2dd4e3ed0484306bd34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 17/67] fix: writing patterns or headers to a full disk is an
 error

ndarray.tofile ignores errors when the stream is closed; write through the file object instead.
---
 pyebsdindex/ebsd_pattern.py | 90 ++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 7c6219b..277dd6c 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -569,26 +569,26 @@ class UPFile(EBSDPatternFile):
     if self.version is None:
       self.version = 3
 
-    np.asarray(self.version, dtype=np.uint32).tofile(f)
+    f.write(np.asarray(self.version, dtype=np.uint32).tobytes())
     if self.version == 1:
       if self.filePos is None:
         self.filePos = 16
-      np.asarray(self.patternW,dtype=np.uint32).tofile(f)
-      np.asarray(self.patternH,dtype=np.uint32).tofile(f)
-      np.asarray(self.filePos,dtype=np.uint32).tofile(f)
+      f.write(np.asarray(self.patternW,dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.patternH,dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.filePos,dtype=np.uint32).tobytes())
 
     elif self.version >= 3:
       if self.filePos is None:
         self.filePos = 42
-      np.asarray(self.patternW,dtype=np.uint32).tofile(f)
-      np.asarray(self.patternH,dtype=np.uint32).tofile(f)
-      np.asarray(self.filePos,dtype=np.uint32).tofile(f)
-      np.asarray(self.extraPatterns,dtype=np.uint8).tofile(f)
-      np.asarray(self.nCols,dtype=np.uint32).tofile(f)
-      np.asarray(self.nRows,dtype=np.uint32).tofile(f)
-      np.asarray(self.hexflag,dtype=np.uint8).tofile(f)
-      np.asarray(self.xStep,dtype=np.float64).tofile(f)
-      np.asarray(self.yStep,dtype=np.float64).tofile(f)
+      f.write(np.asarray(self.patternW,dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.patternH,dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.filePos,dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.extraPatterns,dtype=np.uint8).tobytes())
+      f.write(np.asarray(self.nCols,dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.nRows,dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.hexflag,dtype=np.uint8).tobytes())
+      f.write(np.asarray(self.xStep,dtype=np.float64).tobytes())
+      f.write(np.asarray(self.yStep,dtype=np.float64).tobytes())
 
     if writeBlank == True:
       typewrite = self.filedatatype
@@ -600,7 +600,7 @@ class UPFile(EBSDPatternFile):
       blank = np.zeros((self.patternH, self.patternW), dtype=typewrite)
       for j in range(self.nRows):
         for i in range(self.nCols):
-          blank.tofile(f)
+          f.write(blank.tobytes())
     f.close()
 
 
@@ -612,7 +612,7 @@ class UPFile(EBSDPatternFile):
         nPerPat = np.int64(self.patternW * self.patternH)
         nPerPatByte = np.int64(nPerPat * typewrite(0).nbytes)
         f.seek(np.int64(nPerPatByte * (patStart) + self.filePos), 0)
-        pat2write[0:nPatToWrite, :, :].tofile(f)
+        f.write(pat2write[0:nPatToWrite, :, :].tobytes())
         #print(patStart)
     except Exception as e:
       print(e)
@@ -979,7 +979,7 @@ class EBSPFile(EBSDPatternFile):
 
     if self.version > 0:
       version = np.uint64(-self.version)
-      np.asarray(version, dtype=np.uint64).tofile(f)
+      f.write(np.asarray(version, dtype=np.uint64).tobytes())
 
     if self.version >= 0:
       if self.filePos is None:
@@ -1002,9 +1002,9 @@ class EBSPFile(EBSDPatternFile):
                        +file_head_length+8*self.nPatterns
 
       if self.version >= 4:
-        np.uint8(0).tofile(f)
+        f.write(np.uint8(0).tobytes())
 
-      np.asarray(self.filePos, dtype=np.uint64).tofile(f)
+      f.write(np.asarray(self.filePos, dtype=np.uint64).tobytes())
 
     if writeBlank == True:
       typewrite = self.filedatatype
@@ -1019,18 +1019,18 @@ class EBSPFile(EBSDPatternFile):
 
       for j in range(self.nRows):
         for i in range(self.nCols):
-          pathead.tofile(f)
-          blank.tofile(f)
+          f.write(pathead.tobytes())
+          f.write(blank.tobytes())
           if (self.version > 0) and self.hasxypos:
             if self.version >= 2:
-              np.uint8(1).tofile(f)
-            np.float64(i * self.xStep - 0.5*(self.nCols*self.xStep)).tofile(f)
+              f.write(np.uint8(1).tobytes())
+            f.write(np.float64(i * self.xStep - 0.5*(self.nCols*self.xStep)).tobytes())
             if self.version >= 2:
-              np.uint8(1).tofile(f)
-            np.float64(j * self.yStep - 0.5*(self.nRows*self.yStep)).tofile(f)
+              f.write(np.uint8(1).tobytes())
+            f.write(np.float64(j * self.yStep - 0.5*(self.nRows*self.yStep)).tobytes())
           else: # no xy_pos info
             if self.version >= 2:
-              np.uint8(0).tofile(f)
+              f.write(np.uint8(0).tobytes())
     f.close()
 
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite=None):
@@ -1052,20 +1052,20 @@ class EBSPFile(EBSDPatternFile):
       if np.int64(self.filePos[i]) > 0:
         f.seek(np.int64(self.filePos[i]), 0)
         ii = np.int64(i - patStart)
-        pathead.tofile(f)
-        pat2write[ii, :, :].tofile(f)
+        f.write(pathead.tobytes())
+        f.write(pat2write[ii, :, :].tobytes())
         if write_xypos:
           if self.version >= 2:
-            np.uint8(1).tofile(f)
+            f.write(np.uint8(1).tobytes())
           yx = np.array(np.unravel_index(i, (self.nRows, self.nCols))).astype(np.float64)
           yx[1] -= float(self.nCols * 0.5)
           yx[1] *= self.xStep
           yx[0] -= float(self.nRows * 0.5)
           yx[0] *= self.yStep
-          np.float64(yx[1]).tofile(f)
+          f.write(np.float64(yx[1]).tobytes())
           if self.version >= 2:
-            np.uint8(1).tofile(f)
-          np.float64(yx[0]).tofile(f)
+            f.write(np.uint8(1).tobytes())
+          f.write(np.float64(yx[0]).tobytes())
     f.close()
 
 class TFPatFile(EBSDPatternFile):
@@ -1250,22 +1250,22 @@ class TFPatFile(EBSDPatternFile):
 
     if self.version >= 1:
       version = np.uint32(self.version)
-      np.asarray(version, dtype=np.uint32).tofile(f)
+      f.write(np.asarray(version, dtype=np.uint32).tobytes())
 
     if self.version >= 1:
-      np.asarray(self.nCols, dtype=np.uint32).tofile(f)
-      np.asarray(self.nRows, dtype=np.uint32).tofile(f)
-      np.asarray(self.patternW, dtype=np.uint32).tofile(f)
-      np.asarray(self.patternH, dtype=np.uint32).tofile(f)
+      f.write(np.asarray(self.nCols, dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.nRows, dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.patternW, dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.patternH, dtype=np.uint32).tobytes())
       if self.isscan == False:
-        np.asarray(0, dtype=np.int16).tofile(f)
+        f.write(np.asarray(0, dtype=np.int16).tobytes())
       else:
-        np.asarray(-1, dtype=np.int16).tofile(f)
-      np.asarray(self.bitdepth, dtype=np.uint8).tofile(f)
+        f.write(np.asarray(-1, dtype=np.int16).tobytes())
+      f.write(np.asarray(self.bitdepth, dtype=np.uint8).tobytes())
       if self.hasbackground == False:
-        np.asarray(0, dtype=np.int16).tofile(f)
+        f.write(np.asarray(0, dtype=np.int16).tobytes())
       else: # there should be a background to write.
-        np.asarray(-1, dtype=np.int16).tofile(f)
+        f.write(np.asarray(-1, dtype=np.int16).tobytes())
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
         if self.background != np.ndarray:
           pass
@@ -1274,7 +1274,7 @@ class TFPatFile(EBSDPatternFile):
             pass
           else:
             background = self.background.astype(self.filedatatype)
-        background.tofile(f)
+        f.write(background.tobytes())
 
 
     if writeBlank == True:
@@ -1282,7 +1282,7 @@ class TFPatFile(EBSDPatternFile):
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
       f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
-      np.asarray(0, dtype=np.uint8).tofile(f)
+      f.write(np.asarray(0, dtype=np.uint8).tobytes())
 
 
     f.close()
@@ -1311,11 +1311,11 @@ class TFPatFile(EBSDPatternFile):
 
     f.seek(np.uint64(self.filePos + patStart*nPerPatByte))
     for i in range(nPatToWrite):
-        np.asarray(loc[i,:]).tofile(f)
+        f.write(np.asarray(loc[i,:]).tobytes())
 
         onepat = pat_flt2int(pat2write[i:i+1, :, :],typeout=self.filedatatype,
                              method='clip',maxScale=maxval)
-        onepat.tofile(f)
+        f.write(onepat.tobytes())
     f.close()
     return 0
 
-- 
2.43.0


From 469c0f3d4fa44c92497be905fbfc3f6769b92659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:17 +0000
Subject: [PATCH 18/67] fix: a pattern file that cannot be opened for writing
 is an error

---
 pyebsdindex/ebsd_pattern.py | 97 +++++++++++++------------------------
 1 file changed, 33 insertions(+), 64 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 277dd6c..aad5615 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -555,16 +555,12 @@ class UPFile(EBSDPatternFile):
       print('Error: file extension not recognized')
       return -1
 
-    try:
-      if os.path.isfile(Path(self.filepath).expanduser()):
-        f = open(Path(filepath).expanduser(), 'r+b')
-        f.seek(0)
-      else:
-        f = open(Path(filepath).expanduser(),'w+b')
-        f.seek(0)
-    except:
-      print("File Not Found:", str(Path(filepath)))
-      return -1
+    if os.path.isfile(Path(self.filepath).expanduser()):
+      f = open(Path(filepath).expanduser(), 'r+b')
+      f.seek(0)
+    else:
+      f = open(Path(filepath).expanduser(),'w+b')
+      f.seek(0)
 
     if self.version is None:
       self.version = 3
@@ -605,19 +601,14 @@ class UPFile(EBSDPatternFile):
 
 
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
-    try:
-      with open(Path(self.filepath).expanduser(),'br+') as f:
-        #print(patStart)
-        f.seek(0,0)
-        nPerPat = np.int64(self.patternW * self.patternH)
-        nPerPatByte = np.int64(nPerPat * typewrite(0).nbytes)
-        f.seek(np.int64(nPerPatByte * (patStart) + self.filePos), 0)
-        f.write(pat2write[0:nPatToWrite, :, :].tobytes())
-        #print(patStart)
-    except Exception as e:
-      print(e)
-      print(str(Path(self.filepath)))
-      return -1
+    with open(Path(self.filepath).expanduser(),'br+') as f:
+      #print(patStart)
+      f.seek(0,0)
+      nPerPat = np.int64(self.patternW * self.patternH)
+      nPerPatByte = np.int64(nPerPat * typewrite(0).nbytes)
+      f.seek(np.int64(nPerPatByte * (patStart) + self.filePos), 0)
+      f.write(pat2write[0:nPatToWrite, :, :].tobytes())
+      #print(patStart)
 
 
 
@@ -963,16 +954,12 @@ class EBSPFile(EBSDPatternFile):
       print(exp)
       return -1
 
-    try:
-      if os.path.isfile(Path(self.filepath).expanduser()):
-        f = open(Path(filepath).expanduser(), 'r+b')
-        f.seek(0)
-      else:
-        f = open(Path(filepath).expanduser(), 'w+b')
-        f.seek(0)
-    except:
-      print("File Not Found:", str(Path(filepath)))
-      return -1
+    if os.path.isfile(Path(self.filepath).expanduser()):
+      f = open(Path(filepath).expanduser(), 'r+b')
+      f.seek(0)
+    else:
+      f = open(Path(filepath).expanduser(),'w+b')
+      f.seek(0)
 
     if self.version is None:
       self.version = 2
@@ -1034,12 +1021,8 @@ class EBSPFile(EBSDPatternFile):
     f.close()
 
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite=None):
-    try:
-      f = open(Path(self.filepath).expanduser(), 'br+')
-      f.seek(0, 0)
-    except:
-      print("File Not Found:", str(Path(self.filepath)))
-      return -1
+    f = open(Path(self.filepath).expanduser(), 'br+')
+    f.seek(0, 0)
 
     nPerPat = self.patternW * self.patternH
     nPerPatByte = nPerPat * typewrite(0).nbytes
@@ -1237,16 +1220,12 @@ class TFPatFile(EBSDPatternFile):
       self.bitdepth = bitdepth
 
 
-    try:
-      if os.path.isfile(Path(self.filepath).expanduser()):
-        f = open(Path(filepath).expanduser(), 'r+b')
-        f.seek(0)
-      else:
-        f = open(Path(filepath).expanduser(), 'w+b')
-        f.seek(0)
-    except:
-      print("File Not Found:", str(Path(filepath)))
-      return -1
+    if os.path.isfile(Path(self.filepath).expanduser()):
+      f = open(Path(filepath).expanduser(), 'r+b')
+      f.seek(0)
+    else:
+      f = open(Path(filepath).expanduser(),'w+b')
+      f.seek(0)
 
     if self.version >= 1:
       version = np.uint32(self.version)
@@ -1289,12 +1268,8 @@ class TFPatFile(EBSDPatternFile):
 
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite=None, bitdepth=None):# not a real function yet.
 
-    try:
-      f = open(Path(self.filepath).expanduser(), 'br+')
-      f.seek(0, 0)
-    except:
-      print("File Not Found:", str(Path(self.filepath)))
-      return -1
+    f = open(Path(self.filepath).expanduser(), 'br+')
+    f.seek(0, 0)
     if bitdepth is None:
       bitdepth = self.bitdepth
 
@@ -1526,15 +1501,9 @@ class HDF5PatFile(EBSDPatternFile):
         Using the parent write_data method, it will check that a header exists, and that a dataset
         exists and fill it with blank data if needed --- a good assumption given that
         write_data will perform this check.  '''
-    try:
-      f = h5py.File(Path(self.filepath).expanduser(),'r+')
-    except:
-      print("File Not Found:",str(Path(self.filepath)))
-      return -1
-
-    patterndset = f[self.h5patdatpth]
-    patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]
-    f.close()
+    with h5py.File(Path(self.filepath).expanduser(),'r+') as f:
+      patterndset = f[self.h5patdatpth]
+      patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]
 
   def read_header(self, path=None):
     if path is not None:
-- 
2.43.0


From 0102aafcb8bada0627586af9dff67f81fdf27524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 19/67] fix: writing patterns outside of the scan is an error

---
 pyebsdindex/ebsd_pattern.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index aad5615..f53f7c3 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -371,8 +371,10 @@ class EBSDPatternFile():
         nPatToWrite = npats
       if nPatToWrite == 0:
         nPatToWrite = 1
+      if (patStart < 0) or (patStart >= self.nPatterns):
+        raise ValueError('Pattern ' + str(patStart) + ' is outside of the scan of ' + str(self.nPatterns) + ' patterns')
       if (patStart + nPatToWrite) > self.nPatterns:
-        nPatToWrite = self.nPatterns - patStart
+        nPatToWrite = np.int64(self.nPatterns - patStart)
 
       typewrite = self.filedatatype
       pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
@@ -385,6 +387,9 @@ class EBSDPatternFile():
         nrowwrite = np.int64(pStartEnd[1,1])
 
         patStart = [colstart, rowstart]
+        if (colstart < 0) or (colstart >= self.nCols) or (rowstart < 0) or (rowstart >= self.nRows):
+          raise ValueError('Column, row ' + str((int(colstart), int(rowstart))) + ' is outside of the scan of '
+                           + str((int(self.nCols), int(self.nRows))) + ' columns and rows')
         if ncolwrite < 0:
           ncolwrite = np.int64(self.nCols - colstart)
         if nrowwrite < 0:
-- 
2.43.0


From 1e1f78fa275e8c5324b8809b3df41043d2f7a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:43 +0000
Subject: [PATCH 20/67] fix: a window of patterns overhanging the scan is not
 written askew

---
 pyebsdindex/ebsd_pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index f53f7c3..c4f62cf 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -387,7 +387,7 @@ class EBSDPatternFile():
         nrowwrite = np.int64(pStartEnd[1,1])
 
         patStart = [colstart, rowstart]
-        if (colstart < 0) or (colstart >= self.nCols) or (rowstart < 0) or (rowstart >= self.nRows):
+        if (colstart < 0) or (rowstart < 0) or (colstart >= self.nCols) or (rowstart >= self.nRows):
           raise ValueError('Column, row ' + str((int(colstart), int(rowstart))) + ' is outside of the scan of '
                            + str((int(self.nCols), int(self.nRows))) + ' columns and rows')
         if ncolwrite < 0:
@@ -395,6 +395,7 @@ class EBSDPatternFile():
         if nrowwrite < 0:
           nrowwrite = np.int64(self.nRows - rowstart)
 
+        ncolpats = ncolwrite # the patterns provided fill the whole window, even where that overhangs the scan.
         if (colstart+ncolwrite) > self.nCols:
           ncolwrite = np.int64(self.nCols - colstart)
 
@@ -404,7 +405,7 @@ class EBSDPatternFile():
 
         for i in range(nrowwrite):
           pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)
-          self.write_data(newpatterns = pats[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
+          self.write_data(newpatterns = pats[np.int64(i*ncolpats):np.int64(i*ncolpats+ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
                           flt2int=flt2int,scalevalue=0.98, maxScale = max)
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
     pass
-- 
2.43.0


From 053d220840a409b687072025661f0c849fd336dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:43 +0000
Subject: [PATCH 21/67] fix: scale all rows of a window of patterns alike when
 writing, and as requested

---
 pyebsdindex/ebsd_pattern.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c4f62cf..2ea8b57 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -355,11 +355,6 @@ class EBSDPatternFile():
       elif ndim == 3:
         pats = newpatterns
       npats = pats.shape[0]
-    max = pats.max()
-
-    if maxScale is not None:
-      max = maxScale
-
     pStartEnd = np.asarray(patStartCount)
     # npats == number of patterns in the newpatterns
     # self.nPatterns == number of patterns in the file
@@ -377,7 +372,7 @@ class EBSDPatternFile():
         nPatToWrite = np.int64(self.nPatterns - patStart)
 
       typewrite = self.filedatatype
-      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=None)
+      pat2write = pat_flt2int(pats,typeout=typewrite,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
       self.pat_writer(pat2write,patStart,nPatToWrite, typewrite)
 
     elif pStartEnd.ndim == 2: # write a slab of patterns.
@@ -403,10 +398,12 @@ class EBSDPatternFile():
           nrowwrite = np.int64(self.nRows - rowstart)
 
 
+        # convert all of the patterns at once, so that every row is scaled alike.
+        pats = pat_flt2int(pats,typeout=self.filedatatype,method=flt2int,scalevalue=scalevalue,maxScale=maxScale)
         for i in range(nrowwrite):
           pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)
           self.write_data(newpatterns = pats[np.int64(i*ncolpats):np.int64(i*ncolpats+ncolwrite), :, :], patStartCount=[pstart,ncolwrite],writeHead=False,
-                          flt2int=flt2int,scalevalue=0.98, maxScale = max)
+                          flt2int='clip')
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
     pass
 
-- 
2.43.0


From 7fe557f038cd3ad2e947607bcf0337ef62827249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 22/67] fix: remove the partial file when creating a pattern
 file fails

---
 pyebsdindex/ebsd_pattern.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 2ea8b57..b56450c 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -342,7 +342,12 @@ class EBSDPatternFile():
       writeblank = True
 
     if writeHead==True:
-      self.write_header(writeBlank=writeblank)
+      try:
+        self.write_header(writeBlank=writeblank)
+      except:
+        if writeblank: # do not leave a partial file, later writes would mistake it for a complete one.
+          Path(self.filepath).expanduser().resolve().unlink(missing_ok=True)
+        raise
 
     if isinstance(newpatterns,EBSDPatterns):
       pats = newpatterns.patterns
-- 
2.43.0


From ec87bdd752e55deb89bd02873d84ea54c1b0b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 23/67] fix: writing EBSP patterns keeps the stored positions
 and the layout of newer versions

---
 pyebsdindex/ebsd_pattern.py | 38 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index b56450c..c565744 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1029,35 +1029,17 @@ class EBSPFile(EBSDPatternFile):
     f.close()
 
   def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite=None):
-    f = open(Path(self.filepath).expanduser(), 'br+')
-    f.seek(0, 0)
+    # The header and position of each pattern are left as they are.
+    per_pat_head = 16
+    if self.version >= 5:
+      per_pat_head = 24
 
-    nPerPat = self.patternW * self.patternH
-    nPerPatByte = nPerPat * typewrite(0).nbytes
-    pathead = np.array([0, np.int64(self.patternH), np.int64(self.patternW),
-                        np.int64(self.patternH * self.patternW * self.filedatatype(0).nbytes)], dtype=np.uint32)
-
-    write_xypos = self.hasxypos
-
-    for i in range(np.int64(patStart), np.int64(patStart + nPatToWrite)):
-      if np.int64(self.filePos[i]) > 0:
-        f.seek(np.int64(self.filePos[i]), 0)
-        ii = np.int64(i - patStart)
-        f.write(pathead.tobytes())
-        f.write(pat2write[ii, :, :].tobytes())
-        if write_xypos:
-          if self.version >= 2:
-            f.write(np.uint8(1).tobytes())
-          yx = np.array(np.unravel_index(i, (self.nRows, self.nCols))).astype(np.float64)
-          yx[1] -= float(self.nCols * 0.5)
-          yx[1] *= self.xStep
-          yx[0] -= float(self.nRows * 0.5)
-          yx[0] *= self.yStep
-          f.write(np.float64(yx[1]).tobytes())
-          if self.version >= 2:
-            f.write(np.uint8(1).tobytes())
-          f.write(np.float64(yx[0]).tobytes())
-    f.close()
+    with open(Path(self.filepath).expanduser(), 'br+') as f:
+      for i in range(np.int64(patStart), np.int64(patStart + nPatToWrite)):
+        if np.int64(self.filePos[i]) > 0:
+          f.seek(np.int64(self.filePos[i]) + per_pat_head, 0)
+          ii = np.int64(i - patStart)
+          f.write(pat2write[ii, :, :].tobytes())
 
 class TFPatFile(EBSDPatternFile):
   """
-- 
2.43.0


From 779c5fd934e3f0b6c3c283cc0a163a7bfc1d9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 24/67] fix: writing the header of an EBSP file keeps its
 version and bit depth

---
 pyebsdindex/ebsd_pattern.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c565744..29be2ee 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -947,20 +947,15 @@ class EBSPFile(EBSDPatternFile):
     # xyloc[:,1] *= self.yStep
     return readpats, xyloc
 
-  def write_header(self, writeBlank=False, bitdepth=8):
+  def write_header(self, writeBlank=False, bitdepth=None):
 
     filepath = self.filepath
-    extension = str.lower(Path(filepath).suffix)
-    try:
-      if (bitdepth is None) and (self.filedatatype is None):
-        raise ValueError('Error: extension not recognized, set "bitdepth" parameter')
-      elif (bitdepth == 8):
-        self.filedatatype = np.uint8
-      elif (bitdepth == 16):
-        self.filedatatype = np.uint16
-    except ValueError as exp:
-      print(exp)
-      return -1
+    if (bitdepth == 8):
+      self.filedatatype = np.uint8
+    elif (bitdepth == 16):
+      self.filedatatype = np.uint16
+    elif self.filedatatype is None:
+      self.filedatatype = np.uint8
 
     if os.path.isfile(Path(self.filepath).expanduser()):
       f = open(Path(filepath).expanduser(), 'r+b')
@@ -973,8 +968,7 @@ class EBSPFile(EBSDPatternFile):
       self.version = 2
 
     if self.version > 0:
-      version = np.uint64(-self.version)
-      f.write(np.asarray(version, dtype=np.uint64).tobytes())
+      f.write(np.asarray(-1 * np.int64(self.version), dtype=np.int64).tobytes())
 
     if self.version >= 0:
       if self.filePos is None:
@@ -997,7 +991,7 @@ class EBSPFile(EBSDPatternFile):
                        +file_head_length+8*self.nPatterns
 
       if self.version >= 4:
-        f.write(np.uint8(0).tobytes())
+        f.write(np.asarray(getattr(self, 'mysterybyte', 0), dtype=np.uint8).tobytes())
 
       f.write(np.asarray(self.filePos, dtype=np.uint64).tobytes())
 
-- 
2.43.0


From 00e3323f4a2f1c89a6de18e5e26a8e5fca7250b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 25/67] fix: the layout of a new EBSP file is consistent with
 its header

---
 pyebsdindex/ebsd_pattern.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 29be2ee..b15061f 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -967,6 +967,10 @@ class EBSPFile(EBSDPatternFile):
     if self.version is None:
       self.version = 2
 
+    if writeBlank == True: # a new file: its layout is its own, and at most version 4.
+      self.version = min(np.int64(self.version), np.int64(4))
+      self.filePos = None
+
     if self.version > 0:
       f.write(np.asarray(-1 * np.int64(self.version), dtype=np.int64).tobytes())
 
@@ -987,8 +991,8 @@ class EBSPFile(EBSDPatternFile):
           file_head_length = 9
 
         self.filePos = np.arange(
-          self.nPatterns, dtype=np.uint64)*(16+pat_footer_length+self.patternH*self.patternW*self.filedatatype(0).nbytes)\
-                       +file_head_length+8*self.nPatterns
+          self.nPatterns, dtype=np.uint64)*np.uint64(16+pat_footer_length+self.patternH*self.patternW*self.filedatatype(0).nbytes)\
+                       +np.uint64(file_head_length+8*self.nPatterns)
 
       if self.version >= 4:
         f.write(np.asarray(getattr(self, 'mysterybyte', 0), dtype=np.uint8).tobytes())
@@ -1016,7 +1020,7 @@ class EBSPFile(EBSDPatternFile):
             f.write(np.float64(i * self.xStep - 0.5*(self.nCols*self.xStep)).tobytes())
             if self.version >= 2:
               f.write(np.uint8(1).tobytes())
-            f.write(np.float64(j * self.yStep - 0.5*(self.nRows*self.yStep)).tobytes())
+            f.write(np.float64(0.5*(self.nRows*self.yStep) - j * self.yStep).tobytes())
           else: # no xy_pos info
             if self.version >= 2:
               f.write(np.uint8(0).tobytes())
-- 
2.43.0


From ec78ffe0e3b16ca233935ef7c4bbd342ab2cfd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 26/67] fix: a new TFPAT file has its background and room for
 all of its patterns

---
 pyebsdindex/ebsd_pattern.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index b15061f..31a8420 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1216,8 +1216,7 @@ class TFPatFile(EBSDPatternFile):
       f.seek(0)
 
     if self.version >= 1:
-      version = np.uint32(self.version)
-      f.write(np.asarray(version, dtype=np.uint32).tobytes())
+      f.write(np.asarray(self.version, dtype=np.uint32).tobytes())
 
     if self.version >= 1:
       f.write(np.asarray(self.nCols, dtype=np.uint32).tobytes())
@@ -1234,7 +1233,7 @@ class TFPatFile(EBSDPatternFile):
       else: # there should be a background to write.
         f.write(np.asarray(-1, dtype=np.int16).tobytes())
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
-        if self.background != np.ndarray:
+        if not isinstance(self.background, np.ndarray):
           pass
         else:
           if self.background.size != np.int64(self.patternH * self.patternW):
@@ -1248,7 +1247,7 @@ class TFPatFile(EBSDPatternFile):
       typewrite = self.filedatatype
       dtyperead = np.dtype([('loc', np.uint32, (2)), ('pat', np.uint16, (self.patternH, self.patternW))])
 
-      f.seek(np.uint64(self.nPatterns * dtyperead.itemsize -1))
+      f.seek(np.int64(self.filePos + self.nPatterns * dtyperead.itemsize -1))
       f.write(np.asarray(0, dtype=np.uint8).tobytes())
 
 
-- 
2.43.0


From 532567d1f88be207233e841820690e8e6ab5b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 27/67] fix: copy_file copies TFPAT files

---
 pyebsdindex/ebsd_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 31a8420..c86c8ff 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1325,6 +1325,10 @@ class TFPatFile(EBSDPatternFile):
             dstf.seek(size-1,0)
             #print('seek done')
             dstf.write(b"\0")
+        else:
+          shutil.copyfile(src,dst)
+      else:
+        shutil.copyfile(src,dst)
     except:
       shutil.copyfile(src,dst)
 
-- 
2.43.0


From 3fb649d7d476f71042395abc13bb4027e4e69f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 28/67] fix: copy_file does not copy an incomplete header

---
 pyebsdindex/ebsd_pattern.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c86c8ff..c22c0b8 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -670,6 +670,8 @@ class UPFile(EBSDPatternFile):
         if kwargs['empty_data'] == True:
           with open(src, 'rb') as srcf:
             head = srcf.read(self.filePos)
+            if len(head) != self.filePos:
+              raise OSError('The header of ' + str(src) + ' is incomplete')
             size = srcf.seek(0, 2)
             #print('checkpoint' ,size)
           with open(dst, 'wb') as dstf:
@@ -1317,6 +1319,8 @@ class TFPatFile(EBSDPatternFile):
         if kwargs['empty_data'] == True:
           with open(src, 'rb') as srcf:
             head = srcf.read(self.filePos)
+            if len(head) != self.filePos:
+              raise OSError('The header of ' + str(src) + ' is incomplete')
             size = srcf.seek(0, 2)
             #print('checkpoint' ,size)
           with open(dst, 'wb') as dstf:
-- 
2.43.0


From 6b278021b8f467027eb376f7ed6342c9e74e2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 29/67] fix: a pattern file that exists but cannot be read is
 an error

---
 pyebsdindex/ebsd_pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index c22c0b8..374dea3 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -104,7 +104,9 @@ def get_pattern_file_obj(path,file_type=str('')):
     if ebsdfileobj.h5patdatpth is None: #automatically chose the first data group
       ebsdfileobj.get_data_paths()
       ebsdfileobj.set_data_path(pathindex=0)
-  ebsdfileobj.read_header()
+  status = ebsdfileobj.read_header()
+  if (status is not None) and (status < 0) and os.path.isfile(Path(filepath).expanduser()):
+    raise OSError('Could not read the header of ' + str(filepath))
   return ebsdfileobj
 
 def pat_flt2int(patterns,typeout=None,method='clip',scalevalue=0.98,maxScale=None):
-- 
2.43.0


From 80ecdeb13607c25168384060ddb4d15236a2f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 30/67] fix: write_data accepts writeHead for HDF5 files

---
 pyebsdindex/ebsd_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 374dea3..43031df 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -332,7 +332,7 @@ class EBSDPatternFile():
     in the scan.'''
     pass
 
-  def write_header(self):
+  def write_header(self, writeBlank=False, bitdepth=None):
     pass
 
   def write_data(self, newpatterns=None, patStartCount = [0,-1], writeHead=False,
-- 
2.43.0


From 32f4904a7ddc718239828319b18d654a00be341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:17 +0000
Subject: [PATCH 31/67] fix: writing the header of a TFPAT file does not erase
 a background that is not known

---
 pyebsdindex/ebsd_pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsd_pattern.py b/pyebsdindex/ebsd_pattern.py
index 43031df..53fb791 100644
--- a/pyebsdindex/ebsd_pattern.py
+++ b/pyebsdindex/ebsd_pattern.py
@@ -1238,7 +1238,8 @@ class TFPatFile(EBSDPatternFile):
         f.write(np.asarray(-1, dtype=np.int16).tobytes())
         background = np.zeros((self.patternH, self.patternW), dtype=np.uint16)
         if not isinstance(self.background, np.ndarray):
-          pass
+          if writeBlank == False: # not known, keep the one in the file.
+            background = np.zeros((0), dtype=np.uint16)
         else:
           if self.background.size != np.int64(self.patternH * self.patternW):
             pass
-- 
2.43.0


From c27d05e226832eaf737a1b653e95ab732f4b3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 32/67] fix: calcsigma starts to read at the first row of the
 scan

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 1bff137..196e77b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -485,7 +485,7 @@ class NLPAR:
     chunksize = np.int64(chunksize)
 
 
-    nn = np.uint64(nn)
+    nn = np.int64(nn)
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight,pwidth))
-- 
2.43.0


From fb49119e21c36b358fcb291bb846e19d98a83c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 33/67] fix: calcsigma counts no row twice

---
 pyebsdindex/nlpar_cpu.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 196e77b..fdcb120 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -511,10 +511,7 @@ class NLPAR:
       data = data.reshape(data.shape[0], phw)
 
       #data = None
-      if rowend == nrows:
-        rowstartcount = np.asarray([j-rowstartread,rowcountread - (j-rowstartread) ], dtype=np.int64)
-      else:
-        rowstartcount = np.asarray([j-rowstartread,chunksize ], dtype=np.int64)
+      rowstartcount = np.asarray([j-rowstartread, min(chunksize, nrows-j)], dtype=np.int64)
 
       sigchunk, temp = self.sigma_numba(data,nn, rowcountread,ncols,rowstartcount,colstartcount,indices,saturation_protect)
 
-- 
2.43.0


From 1e41a3b8dd8ef6de52c078b2d91824078c0fa0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 34/67] fix: NLPAR search windows do not leave the scan

---
 pyebsdindex/nlpar_cpu.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index fdcb120..b15d8b5 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -682,12 +682,12 @@ class NLPAR:
     else:
       mxval *= np.float32(0.999)
     for i in numba.prange(ncols):
-      winstart_x = max((i - sr),0) - max((i + sr - (ncols - 1)),0)
-      winend_x = min((i + sr),(ncols - 1)) + max((sr - i),0) + 1
+      winstart_x = max(max((i - sr),0) - max((i + sr - (ncols - 1)),0), 0)
+      winend_x = min(min((i + sr),(ncols - 1)) + max((sr - i),0) + 1, ncols)
       pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)
       for j in range(nrows):
-        winstart_y = max((j - sr),0) - max((j + sr - (nrows - 1)),0)
-        winend_y = min((j + sr),(nrows - 1)) + max((sr - j),0) + 1
+        winstart_y = max(max((j - sr),0) - max((j + sr - (nrows - 1)),0), 0)
+        winend_y = min(min((j + sr),(nrows - 1)) + max((sr - j),0) + 1, nrows)
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
@@ -731,14 +731,14 @@ class NLPAR:
         #print('________________')
         # end of window scanning
         sum = np.float32(0.0)
-        for i_nn in range(winsz):
+        for i_nn in range(counter): # the window may be larger than the scan
 
           weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))
           weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)
           weights[i_nn] += diff_step[i_nn]
           sum += weights[i_nn]
 
-        for i_nn in range(winsz):
+        for i_nn in range(counter): # the window may be larger than the scan
           indx_nn = pindx[i_nn]
           weights[i_nn] /= sum
           #print(weights[i_nn], ' \n')
-- 
2.43.0


From a3434b1463a3e35ef8c43f2a46b17374c723689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 35/67] fix: NLPAR diff_offset is neither accumulated over
 patterns nor shared by threads

---
 pyebsdindex/nlpar_cpu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index b15d8b5..8ba6fd4 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -674,8 +674,6 @@ class NLPAR:
     shpdata = data.shape
     shpind = indices.shape
     winsz = np.int32((2*sr+1)**2)
-    diff_step =  np.zeros((winsz), dtype=np.float32)
-
     mxval = np.max(data)
     if saturation_protect == False:
       mxval += np.float32(1.0)
@@ -691,6 +689,7 @@ class NLPAR:
 
         weights = np.zeros(winsz,dtype=np.float32)
         pindx = np.zeros(winsz,dtype=np.uint64)
+        diff_step = np.zeros(winsz,dtype=np.float32)
 
         indx_0 = i + ncols * j
         sigma0 = sigma[j,i]**2
-- 
2.43.0


From 1594b3e593fa58118c30d0a442bacb2b1d14acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 36/67] fix: calcnlpar with reset_sigma

---
 pyebsdindex/nlpar_cpu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 8ba6fd4..ca7e15a 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -370,13 +370,13 @@ class NLPAR:
 
     indices = np.asarray( (self.mask.flatten().nonzero())[0], np.uint64)
     calcsigma = False
+    if reset_sigma:
+      self.sigma = None
+
     if self.sigma is None:
       calcsigma = True
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
 
-    if reset_sigma:
-      self.sigma = None
-
     if (np.asarray(self.sigma).size == 1) and (self.sigma is not None):
       tmp = np.asarray(self.sigma)[0]
       self.sigma =  np.zeros((nrows, ncols), dtype=np.float32)+tmp
-- 
2.43.0


From ba4ab033110e35264292df1f5fdf00712be28162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 37/67] fix: NLPAR accepts a scalar sigma

---
 pyebsdindex/nlpar_cpu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index ca7e15a..b31408d 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -377,8 +377,8 @@ class NLPAR:
       calcsigma = True
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32)+1e24
 
-    if (np.asarray(self.sigma).size == 1) and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+    if (np.asarray(self.sigma).size == 1) and (calcsigma is False):
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma =  np.zeros((nrows, ncols), dtype=np.float32)+tmp
       calcsigma = False
 
-- 
2.43.0


From 1a98eace43b0cd2b3f5060c2716bbd7e4afde6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 38/67] fix: NLPAR recalculates a sigma of the wrong shape

---
 pyebsdindex/nlpar_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index b31408d..67e176b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -383,7 +383,7 @@ class NLPAR:
       calcsigma = False
 
     shpsigma = np.asarray(self.sigma).shape
-    if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+    if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
       self.sigma = np.zeros((nrows,ncols),dtype=np.float32) + 1e24
       calcsigma = True
 
-- 
2.43.0


From e73a57f2e333ad63740dae8190496915ad23a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 39/67] fix: NLPAR reads all the rows a chunk depends on

---
 pyebsdindex/nlpar_cpu.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 67e176b..74b4d6b 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -409,11 +409,10 @@ class NLPAR:
       if verbose >= 2:
         print("begin row: ", j, "/", nrows, sep='', end='\r')
 
-      rowstartread = np.int64(max(0, j-sr))
-      rowend = min(j + chunksize+sr,nrows)
-
-      if (rowend - rowstartread) < (2*sr+1):
-        rowstartread = np.int64(max(0, rowend - (2*sr+1)))
+      # all of the rows in the search windows, which are shifted at the edges of the scan, and one more row each
+      # side for the neighbors that define sigma.
+      rowstartread = np.int64(max(0, min(j-sr, nrows-(2*sr+1)) - 1))
+      rowend = np.int64(min(nrows, max(j+chunksize+sr, 2*sr+1) + 1))
       rowcountread = np.int64(rowend-rowstartread)
       data, xyloc = patternfile.read_data(patStartCount = [[0,rowstartread], [ncols,rowcountread]],
                                         convertToFloat=True,returnArrayOnly=True)
@@ -441,7 +440,7 @@ class NLPAR:
                               rowcountread,ncols,indices,saturation_protect, diff_offset=diff_offset)
 
       dataout = dataout.reshape(rowcountread, ncols, phw)
-      dataout = dataout[j-rowstartread:, :, : ]
+      dataout = dataout[j-rowstartread:j-rowstartread+chunksize, :, : ]
       shpout = dataout.shape
       dataout = dataout.reshape(shpout[0]*shpout[1], pheight, pwidth)
       if rescale == True:
-- 
2.43.0


From 578afd72895cef94aa52360fde10fe75396ba642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 40/67] fix: NLPAR does not overwrite a HDF5 input file

---
 pyebsdindex/nlpar_cpu.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 74b4d6b..c11c897 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -108,14 +108,14 @@ class NLPAR:
     if fpath is not None: # the user has set an output file path.
       self.filepathout = Path(fpath).expanduser().resolve()
       self.hdfdatapathout =  hdf5path
-      if patternfile.filetype != 'HDF5': #check that the input and output are not the same.
-        pathok = self.filepathout.exists()
-        if pathok:
-          pathok = not self.filepathout.samefile(patternfile.filepath)
-          if not pathok:
-            raise ValueError('Error: File input and output are exactly the same.')
-            return
-
+      #check that the input and output are not the same.
+      pathok = self.filepathout.exists()
+      if pathok:
+        pathok = not self.filepathout.samefile(Path(patternfile.filepath).expanduser())
+        if not pathok:
+          raise ValueError('Error: File input and output are exactly the same.')
+
+      if patternfile.filetype != 'HDF5':
         patternfile.copy_file([self.filepathout,self.hdfdatapathout], empty_data=True)
         return  # fpath and (maybe) hdf5 path were set manually.
       else: # this is a hdf5 file
-- 
2.43.0


From 3ae45f0e935792a422c2a784383b85d1cd6e4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 41/67] fix: NLPAR forgets the geometry and noise of the
 previous file

---
 pyebsdindex/nlpar_cpu.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index c11c897..75db0f3 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -56,19 +56,18 @@ class NLPAR:
     self.hdfdatapathout = None
     #self.patternfile = None
     #self.patternfileout = None
-    self.setfile(filename)
     self.mask = None
     self.sigma = None
     self.sigmann = 1
-    self.nrows = None
-    self.ncols = None
-    if nrows is not None:
-      self.nrows = nrows
-    if ncols is not None:
-      self.ncols = ncols
+    self.nrows = nrows
+    self.ncols = ncols
+    self._nrowsuser = nrows
+    self._ncolsuser = ncols
+    self.setfile(filename)
 
 
   def setfile(self,filepath=None):
+    previous = (self.filepath, self.hdfdatapath)
     self.filepath = None
     self.hdfdatapath = None
     pathtemp = np.atleast_1d(filepath)
@@ -79,6 +78,11 @@ class NLPAR:
     if fpath is not None:
       self.filepath = Path(fpath)
       self.hdfdatapath = hdf5path
+    if (previous[0] is not None) and ((self.filepath, self.hdfdatapath) != previous): # these belong to the previous scan
+      self.nrows = self._nrowsuser
+      self.ncols = self._ncolsuser
+      self.sigma = None
+      self.mask = None
 
   def setoutfile(self, patternfile, filepath=None):
     """Set the output file.
-- 
2.43.0


From 1241461836f675611c4f536c17c696c3307caed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 42/67] fix: an interrupted calcnlpar does not leave an
 incomplete sigma behind

---
 pyebsdindex/nlpar_cpu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index 75db0f3..ec2c90e 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -392,6 +392,8 @@ class NLPAR:
       calcsigma = True
 
     sigma = np.asarray(self.sigma)
+    if calcsigma is True:
+      self.sigma = None # until it is calculated for the whole scan
 
     scalemethod = 'clip'
     if rescale == True:
@@ -463,6 +465,7 @@ class NLPAR:
       #  sigchunk[rowstartcount[0]:rowstartcount[0]+rowstartcount[1],:]
 
 
+    self.sigma = sigma
     if verbose >= 2:
       print('', end='')
 
-- 
2.43.0


From 8423663ec07c11404457f85a58c81fd0457fb6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 43/67] fix: writeoh5 does not change the confidence metric of
 the caller's results

---
 pyebsdindex/ebsdfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index aba7f9f..b41dd33 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -259,7 +259,7 @@ def writeoh5(filename, indexer, data,
 
 
       phaseid = data[-1]['phase']+ phaseIDadd
-      ci = data[-1]['cm']
+      ci = data[-1]['cm'].copy() # do not change the caller's results
       wh = np.nonzero(phaseid < 0)[0]
       if wh.shape[-1] > 0:
         ci[wh] = -1.0
-- 
2.43.0


From f0fba28de16fa66fe3da2d09efb8e50800458505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 44/67] fix: results of a single point can be exported

---
 pyebsdindex/ebsdfile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index b41dd33..d2e3f2e 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -76,7 +76,7 @@ def writeang(filename, indexer, data,
       phaseIDadd = 0
     else:
       phaseIDadd = 1
-    eulers = rotlib.qu2eu(data[-1]['quat'])
+    eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat'])) # qu2eu drops the first dimension of a single point
     for i in range(data.shape[-1]):
       line = '  '
       line += '   '.join('{:.5f}'.format(x) for x in eulers[i,:])
@@ -237,10 +237,10 @@ def writeoh5(filename, indexer, data,
       # Write data
       npoints = data[-1].shape[-1]
 
-      eulers = rotlib.qu2eu(data[-1]['quat'])
-      phi1 = np.squeeze(eulers[:,0]).astype(np.float32)
-      phi = np.squeeze(eulers[:, 1]).astype(np.float32)
-      phi2 = np.squeeze(eulers[:, 2]).astype(np.float32)
+      eulers = np.atleast_2d(rotlib.qu2eu(data[-1]['quat'])) # qu2eu drops the first dimension of a single point
+      phi1 = eulers[:, 0].astype(np.float32)
+      phi = eulers[:, 1].astype(np.float32)
+      phi2 = eulers[:, 2].astype(np.float32)
 
       f.create_dataset(datasetname + '/EBSD/Data/Phi1',
                        data=phi1)
-- 
2.43.0


From 42e91d54afc0627c1d9b1c0cdb0a7c7259eae62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 45/67] fix: writeoh5 derives nrows when only ncols is given

---
 pyebsdindex/ebsdfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index d2e3f2e..9728fb9 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -221,9 +221,9 @@ def writeoh5(filename, indexer, data,
             if indexer.fID.nCols is not None:
               ncols = indexer.fID.nCols
               nrows = indexer.fID.nRows
-        else:
-          if nrows is None:
-            nrows = np.ceil(data.shape[-1] / ncols)
+      else:
+        if nrows is None:
+          nrows = np.ceil(data.shape[-1] / ncols)
 
       ncols = np.atleast_1d(np.array([np.int32(ncols)]).squeeze())
       nrows = np.atleast_1d(np.array([np.int32(nrows)]).squeeze())
-- 
2.43.0


From 6af6f291e1de1397338964afae8e53fb9f06a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 46/67] fix: writeoh5 reports failed writes

---
 pyebsdindex/ebsdfile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyebsdindex/ebsdfile.py b/pyebsdindex/ebsdfile.py
index 9728fb9..a96c4a7 100644
--- a/pyebsdindex/ebsdfile.py
+++ b/pyebsdindex/ebsdfile.py
@@ -1,3 +1,4 @@
+import io
 from pathlib import Path
 import numpy as np
 import h5py
@@ -112,7 +113,10 @@ def writeoh5(filename, indexer, data,
       else:
         phaseIDadd = 1
 
-    with h5py.File(fpath, 'w') as f:
+    # The file is put together in memory: libhdf5 flushes small datasets when they are closed, where h5py can not
+    # report a failed write.
+    image = io.BytesIO()
+    with h5py.File(image, 'w') as f:
       # Write standard Header Information
       f.create_dataset(datasetname +'/EBSD/Header/Camera Azimuthal Angle', data=np.array([np.float64(0.0)]))
       f.create_dataset(datasetname + '/EBSD/Header/Camera Diameter', data=np.array([np.float64(0.0)]))
@@ -291,7 +295,8 @@ def writeoh5(filename, indexer, data,
       chararray = np.chararray(1, itemsize=len(man)+1 )
       chararray[:] = man
       f.create_dataset('Manufacturer', data=chararray)
-      f.close()
+    with open(fpath, 'wb') as f:
+      f.write(image.getbuffer())
 
 
 def _writepyebsdindexheaderh5(indexer, hdff, datagroup=None):
-- 
2.43.0


From d348b8417341ab0414875a5dbb7b298157b179d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 47/67] fix: index_pats honours patstart and npats for patterns
 in memory

---
 pyebsdindex/_ebsd_index_single.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 5cb8032..a7cab71 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -530,6 +530,12 @@ class EBSDIndexer:
             for the distributed indexing procedures.
         """
 
+        if (patsin is not None) and (len(patsin.shape) == 3):
+            start = patstart if patstart >= 0 else max(0, patsin.shape[0] + patstart)
+            end = patsin.shape[0] if npats <= 0 else start + npats
+            if (start > 0) or (end < patsin.shape[0]):
+                patsin = patsin[start:end]
+
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
         if self.bandDetectPlan.patDim is None:
-- 
2.43.0


From 1379760c2cde998267fc79ae164a7c0bc6a2e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 48/67] fix: derived settings follow the patterns being indexed

The kernel widths derived from the pattern size, the padding and the early exit
threshold were kept from the first call on an indexer, so later calls on other
pattern sizes or numbers of bands gave other results than a new indexer.
---
 pyebsdindex/_ebsd_index_single.py |  1 -
 pyebsdindex/band_detect.py        | 10 +++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index a7cab71..9988d9e 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -721,7 +721,6 @@ class EBSDIndexer:
                     earlyexit = max(earlyexit, ph.nband_earlyexit)
             if earlyexit < 0:
                 earlyexit = shpBandDat[1]  # default to all the poles.
-            self.nband_earlyexit = earlyexit
         else:
             earlyexit = self.nband_earlyexit
 
diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 3795623..74e5e1b 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -85,6 +85,8 @@ class BandDetect():
     self.rdnNorm = None
     self.tSigma = tSigma
     self.rSigma = rSigma
+    self._tSigmaAuto = None  # the value of tSigma/rSigma, where derived from the size of the patterns
+    self._rSigmaAuto = None
     self.kernel = None
     self.peakPad = np.array([11, 11])
     self.padding = np.array([11, 11])
@@ -250,12 +252,14 @@ class BandDetect():
     if (self.rhoMaskFrac is not None):
       recalc_masks = True
 
-    if (self.tSigma is None) and (self.dTheta is not None):
+    if ((self.tSigma is None) or (self.tSigma == self._tSigmaAuto)) and (self.dTheta is not None):
       self.tSigma = 1.0/self.dTheta
+      self._tSigmaAuto = self.tSigma
       recalc_masks = True
 
-    if (self.rSigma is None) and (self.dRho is not None):
+    if ((self.rSigma is None) or (self.rSigma == self._rSigmaAuto)) and (self.dRho is not None):
       self.rSigma = 0.5/np.float32(self.dRho)
+      self._rSigmaAuto = self.rSigma
       recalc_masks = True
 
     if recalc_masks == True:
@@ -270,7 +274,7 @@ class BandDetect():
       self.peakPad = np.array(np.around([2 * ksz[0], 2 * ksz[1]]), dtype=np.int64)
       self.peakPad += 1 - np.mod(self.peakPad, 2)  # make sure we have it as odd.
 
-    self.padding = np.array([np.max( [self.peakPad[0], self.padding[0]] ), np.max([self.peakPad[1], self.padding[1]])])
+    self.padding = np.array([np.max([self.peakPad[0], 11]), np.max([self.peakPad[1], 11])])
 
     if nBands is not None:
       self.nBands = nBands
-- 
2.43.0


From 9574b01102d508fb231767f5a1c480cf2a8acfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 49/67] fix: update_file of an indexer without pattern
 dimensions

The indexer may have been made without patterns (patDim None); the default
argument and an array of the caller were overwritten with the file's size.
---
 pyebsdindex/_ebsd_index_single.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 9988d9e..77f519f 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -431,7 +431,7 @@ class EBSDIndexer:
             self.fID = filename
             if self.fID.patternH is None:
                 self.fID.read_header()
-            patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
+            patDim = np.array([self.fID.patternH, self.fID.patternW])
 
             self.filein = filename.filepath   
         else:
@@ -439,9 +439,10 @@ class EBSDIndexer:
             self.fID = ebsd_pattern.get_pattern_file_obj(self.filein)
             if self.fID.patternH is None:
                 self.fID.read_header()
-            patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])
+            patDim = np.array([self.fID.patternH, self.fID.patternW])
 
-        if (patDim[0] != self.bandDetectPlan.patDim[0]) or \
+        if (self.bandDetectPlan.patDim is None) or \
+            (patDim[0] != self.bandDetectPlan.patDim[0]) or \
             (patDim[1] != self.bandDetectPlan.patDim[1]):
             # need to setup banddetect for new pattern dimensions.
             #print(patDim, self.bandDetectPlan.patDim)
-- 
2.43.0


From fbbacedcf4fc7ac36ba94442374a17d5b5cd4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 50/67] fix: pattern-centre optimisation leaves the indexer and
 PC0 as they are

With vendor EMSOFT the indexer's vendor was switched to EDAX during the call (and
stayed so if it was interrupted), and the conversion overwrote indexer.PC or the
caller's PC0 in place. The conversion also normalised by other lengths than
Radon.radon2pole, so that for patterns that are not square the returned PC was not
the one that had been optimised.
---
 pyebsdindex/pcopt.py | 132 ++++++++++++++++---------------------------
 1 file changed, 48 insertions(+), 84 deletions(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index 05cb5f0..b6a50bf 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -38,16 +38,18 @@ RADEG = 180.0 / np.pi
 
 
 #def _optfunction(PC_i, indexer, banddat):
-def _optfunction(PC_i, indexer=None, banddat=None):
+def _optfunction(PC_i, indexer=None, banddat=None, vendor=None):
     tic = timer()
     PC = np.atleast_2d(PC_i)
     result = np.zeros(PC.shape[0])
+    if vendor is None:
+        vendor = indexer.vendor
     # this loop is here because pyswarms expects a vectorized function
     #print(PC.shape)
     for q in range(PC.shape[0]):
 
         bandnorm = indexer.bandDetectPlan.radonPlan.radon2pole(
-            banddat, PC=PC[q,:], vendor=indexer.vendor
+            banddat, PC=PC[q,:], vendor=vendor
         )
         #print(timer() - tic)
         npoints = banddat.shape[0]
@@ -81,6 +83,32 @@ def _optfunction(PC_i, indexer=None, banddat=None):
     return result
 
 
+def _emsoft_norm(patDim):
+    # The pixels per unit of an EDAX PC (see Radon.radon2pole).
+    return np.array([patDim[1], patDim[0], min(patDim[0], patDim[1])], dtype=float)
+
+
+def _emsoft2edax(PC, indexer):
+    # Returns the PC in the EDAX convention and the EMsoft pixel size. PC is not changed.
+    PC = np.asarray(PC, dtype=float)
+    delta = PC[3] if PC.size > 3 else indexer.PC[3]
+    patDim = indexer.bandDetectPlan.patDim
+    pcedax = np.array([0.5 * patDim[1] - PC[0], 0.5 * patDim[0] + PC[1], PC[2] / delta])
+    return pcedax / _emsoft_norm(patDim), delta
+
+
+def _edax2emsoft(PC, delta, indexer):
+    # Returns PC (one, or an array with one per row) in the EMsoft convention.
+    patDim = indexer.bandDetectPlan.patDim
+    PC = np.asarray(PC, dtype=float) * _emsoft_norm(patDim)
+    newout = np.zeros(PC.shape[:-1] + (4,))
+    newout[..., 0] = 0.5 * patDim[1] - PC[..., 0]
+    newout[..., 1] = PC[..., 1] - 0.5 * patDim[0]
+    newout[..., 2] = PC[..., 2] * delta
+    newout[..., 3] = delta
+    return newout
+
+
 def optimize(pats, indexer, PC0=None, batch=False):
     """Optimize pattern center (PC) (PCx, PCy, PCz) in the convention
     of the :attr:`indexer.vendor` with Nelder-Mead.
@@ -121,27 +149,17 @@ def optimize(pats, indexer, PC0=None, batch=False):
 
     if PC0 is None:
         PC0 = indexer.PC
-    emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
-        emsoftflag = True
-        indexer.vendor = "EDAX"
-        patDim = np.array(indexer.bandDetectPlan.patDim)
-        delta = indexer.PC
-        PCtemp = PC0[0:3]
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
-        PCtemp[0] *= -1.0
-        PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
-        PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        #PCtemp /= indexer.bandDetectPlan.patDim[1]
-        PCtemp /= patdimnorm
-        PCtemp[2] /= delta[3]
-        PC0 = PCtemp
+    vendor = indexer.vendor
+    emsoftflag = str.upper(vendor) == "EMSOFT"
+    if emsoftflag:  # Convert to EDAX for optimization
+        vendor = "EDAX"
+        PC0, delta = _emsoft2edax(PC0, indexer)
 
     if not batch:
         PCopt = opt.minimize(
             _optfunction,
             PC0,
-            args=(indexer, banddat),
+            args=(indexer, banddat, vendor),
             method="Nelder-Mead",
             options={"fatol": 0.00001}
         )
@@ -152,38 +170,13 @@ def optimize(pats, indexer, PC0=None, batch=False):
             PCopt = opt.minimize(
                 _optfunction,
                 PC0,
-                args=(indexer, banddat[i, :].reshape(1, nbands)),
+                args=(indexer, banddat[i, :].reshape(1, nbands), vendor),
                 method="Nelder-Mead"
             )
             PCoutRet[i, :] = PCopt['x']
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
-        indexer.PC = delta
-        patDim = np.array(indexer.bandDetectPlan.patDim)
-        patdimnorm = (np.array([patDim[1], patDim[0], np.max(patDim[0:2])]))
-        if PCoutRet.ndim == 2:
-            newout = np.zeros((npoints, 4))
-            PCoutRet[:, 0] -= 0.5
-            #PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)
-            PCoutRet[:, 0] *= -1.0
-            PCoutRet[:, 1] -= 0.5 * patDim[0]
-            PCoutRet[:, 2] *= delta[3]
-            newout[:, :3] = PCoutRet
-            newout[:, 3] = delta[3]
-            PCoutRet = newout
-        else:
-            newout = np.zeros(4)
-            PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= patdimnorm
-            #PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[1] -= 0.5 * patDim[0]
-            PCoutRet[0] *= -1.0
-            PCoutRet[2] *= delta[3]
-            newout[:3] = PCoutRet
-            newout[3] = delta[3]
-            PCoutRet = newout
+    if emsoftflag:
+        PCoutRet = _edax2emsoft(PCoutRet, delta, indexer)
 
     return PCoutRet
 
@@ -265,19 +258,11 @@ def optimize_pso(
     else:
         PC0 = np.asarray(PC0)
 
-    emsoftflag = False
-    if indexer.vendor == "EMSOFT":  # Convert to EDAX for optimization
-        emsoftflag = True
-        indexer.vendor = "EDAX"
-        delta = indexer.PC
-        PCtemp = PC0[0:3]
-        PCtemp[0] *= -1.0
-        PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]
-        PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]
-        PCtemp /= indexer.bandDetectPlan.patDim[1]
-        PCtemp[2] /= delta[3]
-        PC0 = np.array(PCtemp)
-
+    vendor = indexer.vendor
+    emsoftflag = str.upper(vendor) == "EMSOFT"
+    if emsoftflag:  # Convert to EDAX for optimization
+        vendor = "EDAX"
+        PC0, delta = _emsoft2edax(PC0, indexer)
 
 
     # optimizer = pso.single.GlobalBestPSO(
@@ -295,7 +280,7 @@ def optimize_pso(
         # cost, PCoutRet = optimizer.optimize(
         #     _optfunction, niter, indexer=indexer, banddat=banddat
         # )
-        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat,
+        cost, PCoutRet = optimizer.optimize(_optfunction, indexer=indexer, banddat=banddat, vendor=vendor,
                                             start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                                             niter=niter, verbose=verbose)
         #weightedPC = np.mean(optimizer.pbest_loc, axis = 0)
@@ -314,7 +299,7 @@ def optimize_pso(
 
 
             cost, newPC = optimizer.optimize(_optfunction, indexer=indexer,
-                                    banddat=banddat[i, :].reshape(1, nbands),
+                                    banddat=banddat[i, :].reshape(1, nbands), vendor=vendor,
                start=PC0, bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),
                niter=niter, verbose=0)
 
@@ -331,29 +316,8 @@ def optimize_pso(
         if verbose >= 1:
             print('', end='\n')
 
-    if emsoftflag:  # Return original state for indexer
-        indexer.vendor = "EMSOFT"
-        indexer.PC = delta
-        if PCoutRet.ndim == 2:
-            newout = np.zeros((npoints, 4))
-            PCoutRet[:, 0] -= 0.5
-            PCoutRet[:, :3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
-            PCoutRet[:, 0] *= -1.0
-            PCoutRet[:, 2] *= delta[3]
-            newout[:, :3] = PCoutRet
-            newout[:, 3] = delta[3]
-            PCoutRet = newout
-        else:
-            newout = np.zeros(4)
-            PCoutRet[0] -= 0.5
-            PCoutRet[:3] *= indexer.bandDetectPlan.patDim[1]
-            PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]
-            PCoutRet[0] *= -1.0
-            PCoutRet[2] *= delta[3]
-            newout[:3] = PCoutRet
-            newout[3] = delta[3]
-            PCoutRet = newout
+    if emsoftflag:
+        PCoutRet = _edax2emsoft(PCoutRet, delta, indexer)
     if return_cost is False:
         return PCoutRet
     else:
-- 
2.43.0


From c8ebf351a3009e3458b84ab1e740565e89ff9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 51/67] fix: optimize with batch=True uses the documented fatol

---
 pyebsdindex/pcopt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index b6a50bf..b7f3ff0 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -171,7 +171,8 @@ def optimize(pats, indexer, PC0=None, batch=False):
                 _optfunction,
                 PC0,
                 args=(indexer, banddat[i, :].reshape(1, nbands), vendor),
-                method="Nelder-Mead"
+                method="Nelder-Mead",
+                options={"fatol": 0.00001}
             )
             PCoutRet[i, :] = PCopt['x']
 
-- 
2.43.0


From 66197f06f82c135056ee58c1314e75b7a513a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 52/67] fix: a swarm optimisation of one iteration

---
 pyebsdindex/pcopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index b7f3ff0..d27c7f6 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -496,7 +496,7 @@ class PSOOpt():
         # Function that selects and implements evolution of hyperparameters.
         if str.lower(self.hyperparammethod) == 'auto':
 
-            N = float(self.niter)-1
+            N = max(float(self.niter)-1, 1.0)
             self.c1i = (self.c1 - self.c1 / 7) * (N-iter)/N + self.c1 / 7.0
             #self.c2i = (self.c1 - self.c1 / 7) * (iter) / N + self.c1 / 7.0
             self.c2i = (self.c2 - self.c2 / 7) * (iter) / N + self.c2 / 7.0
-- 
2.43.0


From dbacce4a7b27180c9a753bdd6dced62a4f46c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 53/67] fix: band detection is set up for the patterns at hand

Optimising the pattern centre, or indexing the file of an indexer, after patterns of
another size had been indexed used the Radon plan of the other size.
---
 pyebsdindex/_ebsd_index_single.py | 3 ++-
 pyebsdindex/pcopt.py              | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_single.py b/pyebsdindex/_ebsd_index_single.py
index 77f519f..cd8a203 100644
--- a/pyebsdindex/_ebsd_index_single.py
+++ b/pyebsdindex/_ebsd_index_single.py
@@ -539,7 +539,8 @@ class EBSDIndexer:
 
         pats, xyloc = self._getpats(patsin=patsin, patstart=patstart, npats=npats, xyloc=xyloc)
         # just a check that the band_detect is ready for this size pattern.
-        if self.bandDetectPlan.patDim is None:
+        if (self.bandDetectPlan.patDim is None) or \
+                np.any(np.array(pats.shape[-2:]) != self.bandDetectPlan.patDim):
             self.bandDetectPlan.band_detect_setup(patterns=pats)
 
         npoints = pats.shape[0]
diff --git a/pyebsdindex/pcopt.py b/pyebsdindex/pcopt.py
index d27c7f6..b784d00 100644
--- a/pyebsdindex/pcopt.py
+++ b/pyebsdindex/pcopt.py
@@ -144,6 +144,7 @@ def optimize(pats, indexer, PC0=None, batch=False):
     ``fatol=0.00001`` between each iteration, ending the optimization
     when the improvement is below this value.
     """
+    pats, _ = indexer._getpats(patsin=pats)  # makes the band detection fit the size of the patterns
     banddat = indexer.bandDetectPlan.find_bands(pats)
     npoints, nbands = banddat.shape[:2]
 
@@ -243,6 +244,7 @@ def optimize_pso(
     numpy.ndarray
         Optimized PC.
     """
+    pats, _ = indexer._getpats(patsin=pats)  # makes the band detection fit the size of the patterns
     banddat = indexer.bandDetectPlan.find_bands(pats)
     npoints, nbands = banddat.shape[:2]
     if pswarmpar is None:
-- 
2.43.0


From 81190fa57071cff211056ecbff028d5f1a5b3037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 54/67] fix: band_detect_setup with patterns

---
 pyebsdindex/band_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index 74e5e1b..e5ae161 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -140,7 +140,7 @@ class BandDetect():
     if (patterns is None) and (patDim is not None):
       p_dim = np.asarray(patDim, dtype=np.int64)
     if patterns is not None:
-      p_dim = np.shape(patterns)[-2:]  # this will catch if someone sends in a [1 x N x M] image
+      p_dim = np.asarray(np.shape(patterns)[-2:], dtype=np.int64)  # this will catch if someone sends in a [1 x N x M] image
     if p_dim is not None:
       if self.patDim is None:
         recalc_radon = True
-- 
2.43.0


From 22d493c6c79fb116683639bd0844c9a3a834b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 55/67] fix: bands without intensity do not stop the indexing
 of a batch

The weights of a pattern were divided by their maximum, 0 if none of the matched bands
has an intensity, which raised ZeroDivisionError for all the patterns of the call.
---
 pyebsdindex/tripletvote.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyebsdindex/tripletvote.py b/pyebsdindex/tripletvote.py
index ddfbf78..9589b73 100644
--- a/pyebsdindex/tripletvote.py
+++ b/pyebsdindex/tripletvote.py
@@ -872,6 +872,11 @@ class BandIndexer():
       for s in srt6:
         weights[p, s] = band_intensity[p, s]
 
+      if weights[p, :].max() <= 0.0: # none of the bands has an intensity
+        for s in srt6:
+          weights[p, s] = 1.0
+        continue
+
       #weights[p, :] *= 2.0/weights[p,:].max()
       #weights[p, :] = 0.5*(1+np.tanh(8.0 * (weights[p, :] - 1.0)))
 
-- 
2.43.0


From 8a804d7cd55818dd885cb72cd7cf6eaa9eb1d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 56/67] fix: an interrupted band_detect_setup is repeated by
 the next call

The size of the patterns was stored before the Radon plan, masks and kernel had been
made, so that after an exception in between later calls used the incomplete plan.
---
 pyebsdindex/band_detect.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index e5ae161..c5c278e 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -131,7 +131,14 @@ class BandDetect():
                              patternmask = self.patternmask,patternmaskindex = patternmaskindex,
                              **kwargs)
 
-  def band_detect_setup(self, patterns=None,patDim=None,nTheta=None,nRho=None,\
+  def band_detect_setup(self, *args, **kwargs):
+    try:
+      self._band_detect_setup(*args, **kwargs)
+    except BaseException:
+      self.patDim = None # the plan is incomplete, the next call has to set it up
+      raise
+
+  def _band_detect_setup(self, patterns=None,patDim=None,nTheta=None,nRho=None,\
                       tSigma=None, rSigma=None,rhoMaskFrac=None,nBands=None,
                       patternmask=None, patternmaskindex=None, **kwargs):
     p_dim = None
-- 
2.43.0


From 349ea40c2505ace486eff79dcdb78da0b73232b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 57/67] fix: derived kernel widths stay derived when the set-up
 is interrupted

---
 pyebsdindex/band_detect.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/band_detect.py b/pyebsdindex/band_detect.py
index c5c278e..b6d2482 100644
--- a/pyebsdindex/band_detect.py
+++ b/pyebsdindex/band_detect.py
@@ -260,13 +260,15 @@ class BandDetect():
       recalc_masks = True
 
     if ((self.tSigma is None) or (self.tSigma == self._tSigmaAuto)) and (self.dTheta is not None):
-      self.tSigma = 1.0/self.dTheta
-      self._tSigmaAuto = self.tSigma
+      self.tSigma = None
+      self._tSigmaAuto = 1.0/self.dTheta
+      self.tSigma = self._tSigmaAuto
       recalc_masks = True
 
     if ((self.rSigma is None) or (self.rSigma == self._rSigmaAuto)) and (self.dRho is not None):
-      self.rSigma = 0.5/np.float32(self.dRho)
-      self._rSigmaAuto = self.rSigma
+      self.rSigma = None
+      self._rSigmaAuto = 0.5/np.float32(self.dRho)
+      self.rSigma = self._rSigmaAuto
       recalc_masks = True
 
     if recalc_masks == True:
-- 
2.43.0


From e839ec323f104677b48262ec803df4790cedaf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 58/67] fix: GPU band labels: give every output of a band that
 was not found a value

---
 pyebsdindex/opencl/clkernels.cl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyebsdindex/opencl/clkernels.cl b/pyebsdindex/opencl/clkernels.cl
index aaa7ffd..c7678a1 100644
--- a/pyebsdindex/opencl/clkernels.cl
+++ b/pyebsdindex/opencl/clkernels.cl
@@ -606,6 +606,9 @@ __kernel void maxlabel( __global const uchar *maxlocin,__global const float *max
   for (i=0;i<lnmax;++i){
     maxloc[i+lnmax*z] = 0;
     maxval[i+lnmax*z] = -1.0e12f;
+    aveloc[i+lnmax*z] = (float2) (0.0f);
+    aveval[i+lnmax*z] = 0.0f;
+    width[i+lnmax*z] = 0.0f;
   }
 
    
-- 
2.43.0


From 99ef40b33a1eedfb6bf10416f3a9897399497b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 59/67] fix: GPU band detection read device memory that nothing
 had written

---
 pyebsdindex/opencl/band_detect_cl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 5a3fcd0..77d748b 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -397,6 +397,8 @@ class BandDetect(band_detect.BandDetect):
     resultConv = np.full(shp,0.0,dtype=np.float32)
 
     rdnConv_gpu = cl.Buffer(ctx,mf.WRITE_ONLY ,size=resultConv.nbytes)
+    # the convolution does not reach the border of the buffer, but the following steps read it.
+    cl.enqueue_fill_buffer(queue, rdnConv_gpu, np.float32(0.0), 0, rdnConv_gpu.size)
 
     # maskrnd = np.zeros((self.nRho + 2 * self.padding[0], self.nTheta + 2 * self.padding[1]), dtype=np.ubyte)
     # maskrnd[self.padding[0]:-self.padding[0], self.padding[1]:-self.padding[1]] = self.rhomask1
@@ -435,6 +437,7 @@ class BandDetect(band_detect.BandDetect):
       #tic = timer()
     else: # convolution is separable
       tempConvbuff = cl.Buffer(ctx,mf.HOST_NO_ACCESS,size=(shp[0]*shp[1]*shp[2]*4))
+      cl.enqueue_fill_buffer(queue, tempConvbuff, np.float32(0.0), 0, tempConvbuff.size)
 
       kshp = np.asarray(self.kernel[0,:,:].shape,dtype=np.int32)
       pad = kshp
@@ -584,10 +587,10 @@ class BandDetect(band_detect.BandDetect):
     #                         np.int64(shp[1]),np.int64(shp[0]),
     #                         np.int64(self.padding[1]),np.int64(self.padding[0]),
     #                         np.int64(self.peakPad[1]),np.int64(1))
-    # calculate the max in the x direction
-    prg.morphDilateKernelBF(queue, (np.uint32(shp[1]), np.uint32(nR), nImChunk), None, rdn_gpu, lmaxX,
+    # calculate the max in the x direction, for every row: the next step reads those in the padding too.
+    prg.morphDilateKernelBF(queue, (np.uint32(shp[1]), np.uint32(shp[0]), nImChunk), None, rdn_gpu, lmaxX,
                             np.int64(shp[1]), np.int64(shp[0]),
-                            np.int64(0), np.int64(self.padding[0]),
+                            np.int64(0), np.int64(0),
                             np.int64(self.peakPad[1]), np.int64(1))
     # take the max in the x output, use as input, and calculate in the y direction
     prg.morphDilateKernelBF(queue, (np.uint32(nT), np.uint32(nR), nImChunk), None, lmaxX, lmaxXY,
-- 
2.43.0


From 39234c14c49867a29e9e885cafb768015552167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 60/67] fix: GPU band detection: fall back to the CPU when
 there is no usable device; load every pattern type

---
 pyebsdindex/opencl/band_detect_cl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/opencl/band_detect_cl.py b/pyebsdindex/opencl/band_detect_cl.py
index 77d748b..5034b7a 100644
--- a/pyebsdindex/opencl/band_detect_cl.py
+++ b/pyebsdindex/opencl/band_detect_cl.py
@@ -55,15 +55,15 @@ class BandDetect(band_detect.BandDetect):
     if useCPU == True:
       return band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)
 
-    if clparams is None:
-      clparams = openclparam.OpenClParam()
-      clparams.get_queue(gpu_id=gpu_id)
     #if clparams is None:
     #  print('noclparams')
     #else:
     #  print(type(clparams.queue))
 
     try:
+      if clparams is None:
+        clparams = openclparam.OpenClParam()
+        clparams.get_queue(gpu_id=gpu_id)
       tic0 = timer()
       tic = timer()
       ndim = patternsIn.ndim
@@ -265,6 +265,8 @@ class BandDetect(band_detect.BandDetect):
     clvtypesize = 16 # this is the vector size to be used in the openCL implementation.
     nImCL = np.uint64(clvtypesize * (np.int64(np.ceil(nIm/clvtypesize))))
     imtype = image.dtype
+    if imtype.type not in (np.float32, np.ubyte, np.uint16):  # the types there is a load kernel for
+      image = image.astype(np.float32)
 
     tict = timer()
     #image_align = np.ones((shapeIm[1], shapeIm[2], nImCL), dtype = imtype)
-- 
2.43.0


From 16f0d4d27f51a000dc82b01b56578fabe901310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 61/67] fix: a failed build of the GPU program must not leave a
 context without one

---
 pyebsdindex/opencl/openclparam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyebsdindex/opencl/openclparam.py b/pyebsdindex/opencl/openclparam.py
index 8a4cc33..79f3361 100644
--- a/pyebsdindex/opencl/openclparam.py
+++ b/pyebsdindex/opencl/openclparam.py
@@ -102,13 +102,13 @@ class OpenClParam():
 
     gpuindx = min(len(self.gpu)-1, gpu_id)
     self.gpu_id = gpuindx
-    self.ctx = cl.Context(devices = [self.gpu[self.gpu_id]])
+    ctx = cl.Context(devices = [self.gpu[self.gpu_id]])
 
     kernel_location = path.dirname(__file__)
     with warnings.catch_warnings():  # put in to supress OpenCL build warnings -- especially on NVIDIA platforms.
       warnings.simplefilter("ignore")
-      self.prg = cl.Program(self.ctx,open(path.join(kernel_location,kfile)).read()).build(options=['-cl-std=CL1.2', '-w'])
-
+      self.prg = cl.Program(ctx,open(path.join(kernel_location,kfile)).read()).build(options=['-cl-std=CL1.2', '-w'])
+    self.ctx = ctx  # only now: a context without its program is of no use
     #print('ctx', self.gpu_id)
     return self.ctx
   def get_queue(self, gpu_id=None):
-- 
2.43.0


From cc8b0396d5d6996a9c64556608d6138665373045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 62/67] fix: tiles of the GPU pattern averaging must cover
 every row and column

---
 pyebsdindex/nlpar_cpu.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyebsdindex/nlpar_cpu.py b/pyebsdindex/nlpar_cpu.py
index ec2c90e..466b172 100644
--- a/pyebsdindex/nlpar_cpu.py
+++ b/pyebsdindex/nlpar_cpu.py
@@ -766,16 +766,16 @@ class NLPAR:
     ncolchunks = max(ncol / colstep, 1)
     colstepov = min(colstep + 2 * col_overlap, ncol)
     ncolchunks = max(int(np.ceil(ncolchunks)), 1)
-    colstep = max(int(np.round(colstep)), 1)
-    colstepov = min(colstep + 2 * col_overlap, ncol)
+    colstep = max(int(np.round(colstep)), 1, int(col_overlap))  # a chunk has to reach beyond its overlaps
+    colstepov = colstep + 2 * col_overlap
 
     nrowchunks = max(np.ceil(nchunks / ncolchunks), 1)
     rowstep = max((nrow / nrowchunks), 1)
     nrowchunks = max(nrow / rowstep, 1)
     rowstepov = min(rowstep + 2 * row_overlap, nrow)
     nrowchunks = max(int(np.ceil(nrowchunks)), 1)
-    rowstep = max(int(np.round(rowstep)), 1)
-    rowstepov = min(rowstep + 2 * row_overlap, nrow)
+    rowstep = max(int(np.round(rowstep)), 1, int(row_overlap))  # a chunk has to reach beyond its overlaps
+    rowstepov = rowstep + 2 * row_overlap
 
     # colchunks = np.round(np.arange(ncolchunks+1)*ncol/ncolchunks).astype(int)
     # colchunks = np.zeros((ncolchunks, 2), dtype=int)
@@ -789,7 +789,7 @@ class NLPAR:
     for c in range(ncolchunks):
       cchunk = [int(c * colstep) - col_overlap, int(c * colstep + colstepov) - col_overlap]
       colchunks.append(cchunk)
-      if cchunk[1] > ncol:
+      if cchunk[1] >= ncol:
         break
 
     ncolchunks = len(colchunks)
@@ -811,7 +811,7 @@ class NLPAR:
     for r in range(nrowchunks):
       rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
       rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
+      if rchunk[1] >= nrow:
         break
 
     nrowchunks = len(rowchunks)
@@ -826,7 +826,7 @@ class NLPAR:
     for r in range(nrowchunks):
       rchunk = [int(r * rowstep) - row_overlap, int(r * rowstep + rowstepov) - row_overlap]
       rowchunks.append(rchunk)
-      if rchunk[1] > nrow:
+      if rchunk[1] >= nrow:
         break
 
     nrowchunks = len(rowchunks)
-- 
2.43.0


From 55c5b1bd61e62661c1538fb24a905b9f8f65b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 63/67] fix: GPU pattern averaging: noise of the neighbour,
 offset counted once, no access outside of the pattern

---
 pyebsdindex/opencl/clnlpar.cl | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyebsdindex/opencl/clnlpar.cl b/pyebsdindex/opencl/clnlpar.cl
index 4dcd022..75a1037 100644
--- a/pyebsdindex/opencl/clnlpar.cl
+++ b/pyebsdindex/opencl/clnlpar.cl
@@ -145,12 +145,14 @@ __kernel void calcsigma( __global float *data, __global float16 *mask,
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j > 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){      
             
               indx_ij =  (i >= 0) ? (i): abs(i);
               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij > 0) ? (indx_ij): 0;
               indx_ij = npatpoint*(indx_ij + indx_j);
               
               mask1 = mask0;
@@ -228,12 +230,14 @@ __kernel void normd(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j > 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-nn; i<=x+nn; ++i){  
               
                indx_ij =  (i >= 0) ? (i): abs(i);
                indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+               indx_ij =  (indx_ij > 0) ? (indx_ij): 0;
                indx_ij =  (indx_ij + indx_j);
                sigma_ij = sigma[indx_ij];
                sigma_ij *= sigma_ij;
@@ -319,12 +323,14 @@ __kernel void calcnlpar(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j > 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
               indx_ij =  (i >= 0) ? (i): abs(i);
               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij > 0) ? (indx_ij): 0;
               
               indx_ij = (indx_ij + indx_j);
               
@@ -345,7 +351,7 @@ __kernel void calcnlpar(
               dd = sum16(&d1);
               if (indx_ij == indx0) {
                 dd = -1.0;
-                diff_step[count] +=  diff_offset;
+                diff_step[count] =  diff_offset;
               } else{
                 dd = dd;
                 diff_step[count] = 0.0; //diff_offset;
@@ -370,6 +376,7 @@ __kernel void calcnlpar(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j > 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
@@ -378,10 +385,11 @@ __kernel void calcnlpar(
               if (dd > 1.e-3){
                 indx_ij =  (i >= 0) ? (i): abs(i);
                 indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+                indx_ij =  (indx_ij > 0) ? (indx_ij): 0;
                 
                 indx_ij = (indx_ij + indx_j);
                 
-                sigma_ij = sigma[indx_xy];
+                sigma_ij = sigma[indx_ij];
                 sigma_ij *= sigma_ij; 
                 nn = n[count]; 
                 dd -= nn*(sigma_ij+sigma0);
@@ -418,7 +426,7 @@ __kernel void calcnlpar(
 // and place in the output array
   for(z = 0; z<ndatchunk; ++z){
       count = 0; 
-      d0 =  *(__global float16*) (data + indx0+16*z); 
+      d0 =  (float16) (0.0);
       
       mask0 = mask[z];
       mask0 =  (mask0 > (float16) -1.e-3) ? (float16) 1.0 : (float16) 0.0; 
@@ -427,12 +435,14 @@ __kernel void calcnlpar(
           
           indx_j =  (j >= 0) ? (j): abs(j);
           indx_j =  (indx_j < nrow) ? (indx_j): nrow - (indx_j -nrow +1);
+          indx_j =  (indx_j > 0) ? (indx_j): 0;
           indx_j = ncol * indx_j;
           
           for(i=x-sr; i<=x+sr; ++i){
             
               indx_ij =  (i >= 0) ? (i): abs(i);
               indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);
+              indx_ij =  (indx_ij > 0) ? (indx_ij): 0;
               
               indx_ij = (indx_ij + indx_j);
               
@@ -445,7 +455,7 @@ __kernel void calcnlpar(
               d1 *= (float16) d[count]; 
               d1 *= mask0; 
               
-              *(__global float16*) (dataout + indx0+16*z) += d1; 
+              d0 += d1;
               
               //writeadd16(&(dataout[indx0+16*z]), &d1 );
 
@@ -455,6 +465,10 @@ __kernel void calcnlpar(
               count += 1; 
           }
       }
+      // only the pixels of this pattern, what follows belongs to another work item
+      for(j=0; (j < 16) && (16*z+j < npatpoint); ++j){
+          dataout[indx0+16*z+j] = ((float *) &d0)[j];
+      }
   }
 
 
-- 
2.43.0


From d5e20d4669372c6f927cb0edbcf191312864f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 64/67] fix: GPU pattern averaging: sigma and distances of a
 tile only where it holds all neighbors; single sigma; rescale to the file's
 range; other pattern types

---
 pyebsdindex/opencl/nlpar_cl.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_cl.py b/pyebsdindex/opencl/nlpar_cl.py
index 1796ed6..c0f8057 100644
--- a/pyebsdindex/opencl/nlpar_cl.py
+++ b/pyebsdindex/opencl/nlpar_cl.py
@@ -180,7 +180,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     npat_point = int(pwidth * pheight)
     #print(target_mem)
     chunks = self._calcchunks( [pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=1, row_overlap=1)
+                              col_overlap=2*nn, row_overlap=2*nn) # the neighbors of each neighbor too
 
     if (automask is True) and (self.mask is None):
       self.mask = (self.automask(pheight, pwidth))
@@ -206,7 +206,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     #return chunks, chunksize
     mxchunk = chunksize.max()
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    npadmx = clvectlen * (int(np.ceil(mxchunk*npat_point/ clvectlen)) + 1) # the last pattern is read in steps of clvectlen
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -228,11 +228,15 @@ class NLPAR(nlpar_cpu.NLPAR):
       rstart = chunks[3][rowchunk, 0]
       rend = chunks[3][rowchunk, 1]
       nrowchunk = rend - rstart
+      r0 = 2*nn if (rowchunk > 0) else 0 # the part of the tile with all of its neighbors in the tile
+      r1 = nrowchunk - 2*nn if (rowchunk < (chunks[1] - 1)) else nrowchunk
 
       for colchunk in range(chunks[0]):
         cstart = chunks[2][colchunk, 0]
         cend = chunks[2][colchunk, 1]
         ncolchunk = cend - cstart
+        c0 = 2*nn if (colchunk > 0) else 0
+        c1 = ncolchunk - 2*nn if (colchunk < (chunks[0] - 1)) else ncolchunk
 
         data, xyloc = patternfile.read_data(patStartCount=[[cstart, rstart], [ncolchunk, nrowchunk]],
                                           convertToFloat=False, returnArrayOnly=True)
@@ -250,6 +254,8 @@ class NLPAR(nlpar_cpu.NLPAR):
         tic = timer()
         #datapad = np.zeros((npad), dtype=np.float32) + np.float32(mxval + 10)
         #datapad[0:szdata] = data.reshape(-1)
+        if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types there is a load kernel for
+          data = data.astype(np.float32)
         data_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=data)
 
         if data.dtype.type is np.float32:
@@ -287,9 +293,11 @@ class NLPAR(nlpar_cpu.NLPAR):
         #sigmachunk_gpu.release()
 
         queue.finish()
-        countnn[rstart:rend, cstart:cend] = countchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
-        dist[rstart:rend, cstart:cend] = distchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
-        sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
+        countchunk_t = countchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+        distchunk_t = distchunk[0:int(ncolchunk*nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+        countnn[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = countchunk_t[r0:r1, c0:c1]
+        dist[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = distchunk_t[r0:r1, c0:c1]
+        sigma[rstart+r0:rstart+r1, cstart+c0:cstart+c1] = sigmachunk[r0:r1, c0:c1]
         if verbose >= 2:
           print("tiles complete: ", ndone, "/", nchunks, sep='', end='\r')
         ndone +=1
@@ -345,6 +353,10 @@ class NLPAR(nlpar_cpu.NLPAR):
 
     nrows = np.int64(self.nrows)  # np.uint64(patternfile.nRows)
     ncols = np.int64(self.ncols)  # np.uint64(patternfile.nCols)
+    if patternfileout.nCols is None:
+      patternfileout.nCols = ncols
+    if patternfileout.nRows is None:
+      patternfileout.nRows = nrows
 
     pwidth = np.uint64(patternfile.patternW)
     pheight = np.uint64(patternfile.patternH)
@@ -354,13 +366,13 @@ class NLPAR(nlpar_cpu.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
         self.sigma = None
 
     if self.sigma is None:
@@ -380,7 +392,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     if rescale == True:
       self.rescale = True
       if np.issubdtype(patternfileout.filedatatype, np.integer):
-        mxval = np.iinfo(patternfileout.filedatatype).max
+        mxscale = np.iinfo(patternfileout.filedatatype).max
         scalemethod = 'fullscale'
       else:  # not int, so no rescale.
         self.rescale = False
@@ -443,7 +455,7 @@ class NLPAR(nlpar_cpu.NLPAR):
     mxchunk = np.int64(chunksize.max())
     # print("max chunk:" , mxchunk)
 
-    npadmx = clvectlen * np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen))
+    npadmx = clvectlen * (np.int64(np.ceil(float(mxchunk)*npat_point/ clvectlen)) + 1) # the last pattern is read in steps of clvectlen
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=np.int64(npadmx) * np.int64(4))
@@ -538,6 +550,8 @@ class NLPAR(nlpar_cpu.NLPAR):
         #datapad = np.zeros((npad), dtype=np.float32) + np.float32(mxval + 10)
         #datapad[0:szdata] = data.reshape(-1)
 
+        if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types there is a load kernel for
+          data = data.astype(np.float32)
         data_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=data)
         # print("data", data_gpu.size)
         if data.dtype.type is np.float32:
@@ -593,7 +607,7 @@ class NLPAR(nlpar_cpu.NLPAR):
               for i in range(data.shape[0]):
                 temp = data[i, :, :]
                 temp -= temp.min()
-                temp *= np.float32(mxval) / temp.max()
+                temp *= np.float32(mxscale) / temp.max()
                 data[i, :, :] = temp
 
 
-- 
2.43.0


From b708fb500fadb80a7d8c3cd3a5eefa509af418b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 65/67] fix: multi-worker GPU averaging: a failed tile or a
 dead worker is replaced and retried a bounded number of times; only the
 driver writes the output

---
 pyebsdindex/opencl/nlpar_clray.py | 62 ++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index dfd0382..ad0b168 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -204,6 +204,7 @@ class NLPAR(nlpar_cl.NLPAR):
 
     idlewrker = []
     busywrker = []
+    busyjobs = []
     tasks = []
 
     for w in range(ngpuwrker):
@@ -221,12 +222,20 @@ class NLPAR(nlpar_cl.NLPAR):
 
           tasks.append(wrker.runsigma_chunk.remote(job, nlparobj=nlpar_remote, saturation_protect=saturation_protect))
           busywrker.append(wrker)
+          busyjobs.append(job)
       if len(tasks) > 0:
         donetasks, stillbusy = ray.wait(tasks, num_returns=len(busywrker), timeout=0.1)
 
         for tsk in donetasks:
           indx = tasks.index(tsk)
-          message, job, newdata = ray.get(tsk)
+          tasks.pop(indx)
+          wrker = busywrker.pop(indx)
+          job = busyjobs.pop(indx)
+          message, newdata, alive = _taskresult(tsk)
+          if not alive:
+            wrker = NLPARGPUWorker.options(num_cpus=float(0.99), num_gpus=ngpu_per_wrker).remote(
+              actorid=0, gpu_id=gpu_id, cudavis=cudavis)
+          idlewrker.append(wrker)
           if message == 'Done':
 
             sigmachunk = newdata[0]
@@ -250,9 +259,9 @@ class NLPAR(nlpar_cl.NLPAR):
                                                                                                 nnn)
             sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
 
-            idlewrker.append(busywrker.pop(indx))
-            tasks.remove(tsk)
             ndone += 1
+          else:  # An error has occured ... hopefully just need a re-process.
+            jobqueue.append(_reattempt(job, newdata))
           if verbose >= 2:
             print("tiles complete: ", ndone,"/", njobs,sep='', end='\r'  )
     if verbose >= 2:
@@ -541,6 +550,7 @@ class NLPAR(nlpar_cl.NLPAR):
 
     idlewrker = []
     busywrker = []
+    busyjobs = []
     tasks = []
 
     for w in range(ngpuwrker):
@@ -557,20 +567,32 @@ class NLPAR(nlpar_cl.NLPAR):
 
                 tasks.append(wrker.runnlpar_chunk.remote(job, nlparobj=nlpar_remote))
                 busywrker.append(wrker)
+                busyjobs.append(job)
         if len(tasks) > 0:
             donetasks, stillbusy = ray.wait(tasks, num_returns=len(busywrker), timeout=0.1)
 
             for tsk in donetasks:
                 indx = tasks.index(tsk)
-                message, job, newdata = ray.get(tsk)
+                tasks.pop(indx)
+                wrker = busywrker.pop(indx)
+                job = busyjobs.pop(indx)
+                message, newdata, alive = _taskresult(tsk)
+                if not alive:
+                  wrker = NLPARGPUWorker.options(num_cpus=float(0.99), num_gpus=ngpu_per_wrker).remote(
+                    actorid=0, gpu_id=gpu_id, cudavis=cudavis)
+                idlewrker.append(wrker)
                 if message == 'Done':
-                  idlewrker.append(busywrker.pop(indx))
-                  tasks.remove(tsk)
+                  # only this process writes, the file may not allow for more than one writer
+                  self.patternfileout.write_data(newpatterns=newdata,
+                                                 patStartCount=[[job.cstart + job.cstartcalc,
+                                                                 job.rstart + job.rstartcalc],
+                                                                [job.ncolcalc, job.nrowcalc]],
+                                                 flt2int='clip', scalevalue=1.0)
                   ndone += 1
                   if verbose >= 2:
                     print("tiles complete: ", ndone, "/", njobs, sep='', end='\r')
                 else: #An error has occured ... hopefully just need a re-process.
-                  jobqueue.append(job)
+                  jobqueue.append(_reattempt(job, newdata))
                   print(message)
 
     if verbose >= 2:
@@ -694,6 +716,23 @@ class NLPAR(nlpar_cl.NLPAR):
 
 
 
+def _taskresult(task):
+  """Message and data of a finished task, and if its worker is still there."""
+  try:
+    message, job, newdata = ray.get(task)
+    return message, newdata, True
+  except Exception as e:  # the worker is gone
+    return 'Error', e, False
+
+
+def _reattempt(job, error):
+  """Count the failed attempts of a job, a job that keeps on failing ends the calculation."""
+  job.nattempts += 1
+  if job.nattempts > 3:
+    raise RuntimeError('NLPAR: the calculation of a tile failed repeatedly: ' + str(error))
+  return job
+
+
 @ray.remote
 class NLPARGPUWorker:
   def __init__(self, actorid=0, gpu_id=None, cudavis = '0'):
@@ -767,14 +806,8 @@ class NLPARGPUWorker:
             self.openCLParams.queue.finish()
             self.openCLParams.queue = None
 
-        nlparobj.patternfileout.write_data(newpatterns=newdata,
-                                       patStartCount=[[gpujob.cstart + gpujob.cstartcalc,
-                                                       gpujob.rstart + gpujob.rstartcalc],
-                                                      [gpujob.ncolcalc, gpujob.nrowcalc]],
-                                       flt2int='clip', scalevalue=1.0)
-
         gpujob._endtime()
-        return 'Done', gpujob, None
+        return 'Done', gpujob, newdata
     except Exception as e:
         print(e)
         gpujob.rate = None
@@ -784,6 +817,7 @@ class NLPARGPUWorker:
 class NLPARGPUJob:
   def __init__(self, jobid, chunk, calclim):
     self.jobid = jobid
+    self.nattempts = 0
     if self.jobid is not None:
       self.cstart = chunk[0]
       self.cend = chunk[1]
-- 
2.43.0


From 2248a1a89648644c0c82e00a319e3e71a0a5693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 66/67] fix: multi-worker GPU averaging: noise only where a
 tile holds all neighbors, normalize_d, single sigma, rescale of each pattern
 to the file's range, other pattern types, buffers long enough for the kernels

---
 pyebsdindex/opencl/nlpar_clray.py | 63 +++++++++++++++++++------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/pyebsdindex/opencl/nlpar_clray.py b/pyebsdindex/opencl/nlpar_clray.py
index ad0b168..403fa8b 100644
--- a/pyebsdindex/opencl/nlpar_clray.py
+++ b/pyebsdindex/opencl/nlpar_clray.py
@@ -144,7 +144,7 @@ class NLPAR(nlpar_cl.NLPAR):
     mask = self.mask.astype(np.float32)
 
     chunks = self._calcchunks([pwidth, pheight], ncols, nrows, target_bytes=target_mem,
-                              col_overlap=nn, row_overlap=nn)
+                              col_overlap=2*nn, row_overlap=2*nn) # the neighbors of each neighbor too
 
 
     jobqueue = []
@@ -154,8 +154,8 @@ class NLPAR(nlpar_cl.NLPAR):
       rend = chunks[3][rowchunk, 1]
       nrowchunk = rend - rstart
 
-      rstartcalc = nn if (rowchunk > 0) else 0
-      rendcalc = nrowchunk - nn if (rowchunk < (chunks[1] - 1)) else nrowchunk
+      rstartcalc = 2*nn if (rowchunk > 0) else 0 # the part of the tile with all of its neighbors in the tile
+      rendcalc = nrowchunk - 2*nn if (rowchunk < (chunks[1] - 1)) else nrowchunk
       nrowcalc = np.int64(rendcalc - rstartcalc)
 
       for colchunk in range(chunks[0]):
@@ -163,8 +163,8 @@ class NLPAR(nlpar_cl.NLPAR):
         cend = chunks[2][colchunk, 1]
         ncolchunk = cend - cstart
 
-        cstartcalc = nn if (colchunk > 0) else 0
-        cendcalc = ncolchunk - nn if (colchunk < (chunks[0] - 1)) else ncolchunk
+        cstartcalc = 2*nn if (colchunk > 0) else 0
+        cendcalc = ncolchunk - 2*nn if (colchunk < (chunks[0] - 1)) else ncolchunk
         ncolcalc = np.int64(cendcalc - cstartcalc)
 
         jobqueue.append(NLPARGPUJob([colchunk, rowchunk], \
@@ -220,7 +220,8 @@ class NLPAR(nlpar_cl.NLPAR):
           wrker = idlewrker.pop()
           job = jobqueue.pop()
 
-          tasks.append(wrker.runsigma_chunk.remote(job, nlparobj=nlpar_remote, saturation_protect=saturation_protect))
+          tasks.append(wrker.runsigma_chunk.remote(job, nlparobj=nlpar_remote, saturation_protect=saturation_protect,
+                                                   normalize_d=normalize_d))
           busywrker.append(wrker)
           busyjobs.append(job)
       if len(tasks) > 0:
@@ -253,11 +254,15 @@ class NLPAR(nlpar_cl.NLPAR):
             nrowcalc = job.nrowcalc
             ncolcalc = job.ncolcalc
 
-            countnn[rstart:rend, cstart:cend] = countchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk,
-                                                                                        ncolchunk, nnn)
-            dist[rstart:rend, cstart:cend] = distchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk,
-                                                                                                nnn)
-            sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)
+            countchunk = countchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+            distchunk = distchunk[0:int(ncolchunk * nrowchunk), :].reshape(nrowchunk, ncolchunk, nnn)
+            rcalc = slice(rstartcalc, rstartcalc + nrowcalc)
+            ccalc = slice(cstartcalc, cstartcalc + ncolcalc)
+            rout = slice(rstart + rstartcalc, rstart + rstartcalc + nrowcalc)
+            cout = slice(cstart + cstartcalc, cstart + cstartcalc + ncolcalc)
+            countnn[rout, cout] = countchunk[rcalc, ccalc]
+            dist[rout, cout] = distchunk[rcalc, ccalc]
+            sigma[rout, cout] = sigmachunk[rcalc, ccalc]
 
             ndone += 1
           else:  # An error has occured ... hopefully just need a re-process.
@@ -268,7 +273,7 @@ class NLPAR(nlpar_cl.NLPAR):
       print('\n', end='')
     return sigma, dist, countnn
 
-  def _sigmachunkcalc_cl(self, data, calclim, clparams=None, saturation_protect=True):
+  def _sigmachunkcalc_cl(self, data, calclim, clparams=None, saturation_protect=True, normalize_d=False):
     nn = self.sigmann
 
     data = np.ascontiguousarray(data)
@@ -308,7 +313,7 @@ class NLPAR(nlpar_cl.NLPAR):
     #return chunks, chunksize
     mxchunk = data.shape[0]
 
-    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))
+    npadmx = clvectlen * (int(np.ceil(mxchunk*npat_point/ clvectlen)) + 1) # the last pattern is read in steps of clvectlen
 
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
 
@@ -334,6 +339,8 @@ class NLPAR(nlpar_cl.NLPAR):
     tic = timer()
     #datapad = np.zeros((npad), dtype=np.float32) + np.float32(mxval + 10)
     #datapad[0:szdata] = data.reshape(-1)
+    if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types there is a load kernel for
+      data = data.astype(np.float32)
     data_gpu = cl.Buffer(ctx,mf.READ_ONLY | mf.COPY_HOST_PTR,hostbuf=data)
 
     if data.dtype.type is np.float32:
@@ -356,11 +363,12 @@ class NLPAR(nlpar_cl.NLPAR):
                            np.int64(nn), np.int64(npatsteps), np.int64(npat_point),
                            np.float32(mxval) )
 
-    cl.enqueue_barrier(clparams.queue)
-    prg.normd(clparams.queue, (np.uint32(ncolchunk), np.uint32(nrowchunk)), None,
-                    sigmachunk_gpu,
-                    count_local, dist_local,
-                    np.int64(nn))
+    if normalize_d is True:
+      cl.enqueue_barrier(clparams.queue)
+      prg.normd(clparams.queue, (np.uint32(ncolchunk), np.uint32(nrowchunk)), None,
+                      sigmachunk_gpu,
+                      count_local, dist_local,
+                      np.int64(nn))
     clparams.queue.finish()
 
     cl.enqueue_copy(clparams.queue, distchunk, dist_local, is_blocking=False)
@@ -421,6 +429,10 @@ class NLPAR(nlpar_cl.NLPAR):
 
     nrows = np.int64(self.nrows)  # np.uint64(patternfile.nRows)
     ncols = np.int64(self.ncols)  # np.uint64(patternfile.nCols)
+    if self.patternfileout.nCols is None:
+      self.patternfileout.nCols = ncols
+    if self.patternfileout.nRows is None:
+      self.patternfileout.nRows = nrows
 
     pwidth = np.uint64(self.patternfile.patternW)
     pheight = np.uint64(self.patternfile.patternH)
@@ -430,13 +442,13 @@ class NLPAR(nlpar_cl.NLPAR):
       self.sigma = None
 
     if np.asarray(self.sigma).size == 1 and (self.sigma is not None):
-      tmp = np.asarray(self.sigma)[0]
+      tmp = np.asarray(self.sigma).flatten()[0]
       self.sigma = np.zeros((nrows, ncols), dtype=np.float32) + tmp
       calcsigma = False
 
     if self.sigma is not None:
       shpsigma = np.asarray(self.sigma).shape
-      if (shpsigma[0] != nrows) and (shpsigma[1] != ncols):
+      if (shpsigma[0] != nrows) or (shpsigma[1] != ncols):
         self.sigma = None
 
     if self.sigma is None:
@@ -646,7 +658,9 @@ class NLPAR(nlpar_cl.NLPAR):
     npat_point = int(shpdata[-1]*shpdata[-2])
     npat = shpdata[0]
 
-    npadmx = clvectlen * int(np.ceil(float(npat)*npat_point/ clvectlen))
+    npadmx = clvectlen * (int(np.ceil(float(npat)*npat_point/ clvectlen)) + 1) # the last pattern is read in steps of clvectlen
+    if data.dtype.type not in (np.float32, np.ubyte, np.uint16): # the types there is a load kernel for
+      data = data.astype(np.float32)
     data_gpu = cl.Buffer(ctx, mf.READ_ONLY| mf.COPY_HOST_PTR, hostbuf=data)
     datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
     datapadout_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))
@@ -701,14 +715,15 @@ class NLPAR(nlpar_cl.NLPAR):
     cl.enqueue_copy(clparams.queue, data, datapadout_gpu,  is_blocking=True)
     sigmachunk_gpu.release()
     clparams.queue.finish()
+    data = data[rstartcalc: rstartcalc + nrowcalc, cstartcalc: cstartcalc + ncolcalc, :, :]
+    data = data.reshape(nrowcalc * ncolcalc, pheight, pwidth)
     if self.rescale == True:
+      mxscale = np.iinfo(self.patternfileout.filedatatype).max
       for i in range(data.shape[0]):
         temp = data[i, :, :]
         temp -= temp.min()
-        temp *= np.float32(mxval) / temp.max()
+        temp *= np.float32(mxscale) / temp.max()
         data[i, :, :] = temp
-    data = data[rstartcalc: rstartcalc + nrowcalc, cstartcalc: cstartcalc + ncolcalc, :, :]
-    data = data.reshape(nrowcalc * ncolcalc, pheight, pwidth)
 
     clparams.queue = None
 
-- 
2.43.0


From e7340687f05312ffa46e2c7d73fcf8d5b1877b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 67/67] fix: index_pats_distributed accepts gpu_id as an int

The documented single int raised inside the GPU set-up, which was taken for
a machine without a GPU: the workers got no GPU, and CUDA_VISIBLE_DEVICES=''
hid every CUDA device from them.
---
 pyebsdindex/_ebsd_index_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyebsdindex/_ebsd_index_parallel.py b/pyebsdindex/_ebsd_index_parallel.py
index 03b8059..d5d4dfc 100644
--- a/pyebsdindex/_ebsd_index_parallel.py
+++ b/pyebsdindex/_ebsd_index_parallel.py
@@ -325,7 +325,7 @@ def index_pats_distributed(
                 ngpu = len(clparam.gpu)
                 gpu_id = np.arange(ngpu, dtype=int)
             cudagpuvis = ''
-            for cudagpu in gpu_id:
+            for cudagpu in np.atleast_1d(gpu_id):
             #for cdgpu in range(len(clparam.gpu)):
                 cudagpuvis += ','+str(cudagpu)
             cudagpuvis = cudagpuvis[1:]
-- 
2.43.0

