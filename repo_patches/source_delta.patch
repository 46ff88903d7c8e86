From 7a995086f118ff7dccba1c3b789635c1ed831af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:41 +0000
Subject: [PATCH 01/40] fix: create lock files exclusively

Testing for an existing lock file and creating it were two separate steps.
Two processes could both find no lock, both take it, and lose each other's
update when they merge images into the same product.
The lock file is now opened with O_EXCL, and all callers use lock_file().
---
 src/modules/cross-level/brick_io-cl.cpp | 12 ++++----
 src/modules/cross-level/cite-cl.c       |  2 +-
 src/modules/cross-level/cube-cl.c       |  2 +-
 src/modules/cross-level/lock-cl.c       | 37 +++++++++++++++++++++----
 src/modules/cross-level/lock-cl.h       |  2 +-
 src/modules/higher-level/tasks-hl.c     |  4 +--
 6 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 33a57fb..a444d43 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -221,11 +221,11 @@ int write_brick(brick_t *brick){
   
   
     // output path
-    if ((lock = (char*)CPLLockFile(brick->dname.string, 60)) == NULL){
+    if ((lock = lock_file(brick->dname.string, 60)) == NULL){
       printf("Unable to lock directory %s (timeout: %ds). ", brick->dname.string, 60);
       return FAILURE;}
     createdir(brick->dname.string);
-    CPLUnlockFile(lock);
+    unlock_file(lock);
     lock = NULL;
   
     // provenance file
@@ -251,7 +251,7 @@ int write_brick(brick_t *brick){
   
       timeout = lock_timeout(get_brick_size(brick));
   
-      if ((lock = (char*)CPLLockFile(fname, timeout)) == NULL){
+      if ((lock = lock_file(fname, timeout)) == NULL){
         printf("Unable to lock file %s (timeout: %fs, nx/ny: %d/%d). ", fname, timeout, brick->nx, brick->ny);
         return FAILURE;}
   
@@ -465,14 +465,14 @@ int write_brick(brick_t *brick){
       GDALClose(fp);
   
     
-      CPLUnlockFile(lock);
+      unlock_file(lock);
     
       // write provenance info
       if (brick->provenance.number > 0 && 
           brick->chunk[_X_] <= 0 && 
           brick->chunk[_Y_] <= 0){
   
-        if ((lock = (char*)CPLLockFile(provname, timeout)) == NULL){
+        if ((lock = lock_file(provname, timeout)) == NULL){
           printf("Unable to lock file %s (timeout: %fs). ", provname, timeout);
           return FAILURE;}
   
@@ -501,7 +501,7 @@ int write_brick(brick_t *brick){
 
         fclose(fprov);
   
-        CPLUnlockFile(lock);
+        unlock_file(lock);
   
       }
     
diff --git a/src/modules/cross-level/cite-cl.c b/src/modules/cross-level/cite-cl.c
index 59348d5..33143d7 100755
--- a/src/modules/cross-level/cite-cl.c
+++ b/src/modules/cross-level/cite-cl.c
@@ -456,7 +456,7 @@ int i;
     
   if (fileexist(fname)) return;
 
-  if ((lock = (char*)lock_file(fname, 60)) == NULL) return;
+  if ((lock = lock_file(fname, 60)) == NULL) return;
 
   if ((_cite_fp_ = fopen(fname, "w")) == NULL){
     printf("Unable to open CITEME file!\n"); 
diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index e2ba358..4c3cfb1 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -247,7 +247,7 @@ FILE *fp = NULL;
 
   if (!fileexist(cube->def_path)){
 
-    if ((lock = (char*)lock_file(cube->def_path, 60)) == NULL) return FAILURE;
+    if ((lock = lock_file(cube->def_path, 60)) == NULL) return FAILURE;
 
     if ((fp = fopen(cube->def_path, "w")) == NULL){
       printf("Unable to open %s. ", cube->def_path); return FAILURE;}
diff --git a/src/modules/cross-level/lock-cl.c b/src/modules/cross-level/lock-cl.c
index 34eb795..4affc40 100755
--- a/src/modules/cross-level/lock-cl.c
+++ b/src/modules/cross-level/lock-cl.c
@@ -27,22 +27,45 @@ This file contains a public interface for locking files
 
 #include "lock-cl.h"
 
+#include <errno.h>    // error numbers
+#include <fcntl.h>    // file control options
+#include <string.h>   // string handling functions
+#include <unistd.h>   // essential POSIX functions and constants
+
 /** Geospatial Data Abstraction Library (GDAL) **/
 #include "cpl_multiproc.h" // CPL Multi-Threading
 
 
 /** Lock a file
++++ The lockfile is created exclusively, i.e. testing for an existing lock-
++++ file and creating it is one indivisible step. Thus, only one process or
++++ thread can hold the lock.
 --- fname:   filename
 --- timeout: try to lock the file for a maximum time of x seconds
 +++ Return:  filename of lockfile
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-char *lock_file(char *fname, int timeout){
+char *lock_file(const char *fname, double timeout){
 char *lock = NULL;
-
-  if ((lock = (char*)CPLLockFile(fname, timeout)) == NULL){
-    printf("Unable to lock file (timeout: %ds): %s\n", timeout, fname); 
+size_t size = strlen(fname) + strlen(".lock") + 1;
+double waited = 0.0;
+const double interval = 0.5;
+int fd;
+
+  if ((lock = (char*)malloc(size)) == NULL) return NULL;
+  snprintf(lock, size, "%s.lock", fname);
+
+  while ((fd = open(lock, O_WRONLY | O_CREAT | O_EXCL, 0666)) < 0){
+    if (errno != EEXIST || waited >= timeout){
+      printf("Unable to lock file (timeout: %.0fs): %s\n", timeout, fname);
+      free((void*)lock);
+      return NULL;
+    }
+    CPLSleep(interval);
+    waited += interval;
   }
 
+  close(fd);
+
   return lock;
 }
 
@@ -53,7 +76,11 @@ char *lock = NULL;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void unlock_file(char *lock){
 
-  CPLUnlockFile(lock);
+  if (lock == NULL) return;
+
+  unlink(lock);
+  free((void*)lock);
+
   return;
 }
 
diff --git a/src/modules/cross-level/lock-cl.h b/src/modules/cross-level/lock-cl.h
index 5b64f4c..2afa04d 100755
--- a/src/modules/cross-level/lock-cl.h
+++ b/src/modules/cross-level/lock-cl.h
@@ -36,7 +36,7 @@ Lockfiles header
 extern "C" {
 #endif
 
-char *lock_file(char *fname, int timeout);
+char *lock_file(const char *fname, double timeout);
 void unlock_file(char *lock);
 double lock_timeout(size_t bytes);
 
diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 5cf6e91..907f6ab 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -275,7 +275,7 @@ int o;
   if (nchar < 0 || nchar >= NPOW_10){ 
     printf("Buffer Overflow in assembling filename\n"); exit(1);}
 
-  if ((lock = (char*)CPLLockFile(dname, 60)) == NULL){
+  if ((lock = lock_file(dname, 60)) == NULL){
     printf("Unable to lock directory %s (timeout: %ds). ", dname, 60);
     error = true;
   }
@@ -283,7 +283,7 @@ int o;
   if (!error){
 
     createdir(dname);
-    CPLUnlockFile(lock);
+    unlock_file(lock);
     lock = NULL;
 
     omp_set_num_threads(phl->othread);
-- 
2.43.0


From d6a6649169e87cf9dc92d6be5da80d7846d1474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:50 +0000
Subject: [PATCH 02/40] fix: row coordinates decrease from north to south

The y coordinate of an image row was computed with the positive column
resolution. The sampling module thus searched its points north of each
block and extracted none, and geographic coordinates of rows used by the
Level-2 processor were mirrored at the upper image edge.
---
 src/modules/cross-level/brick_base-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index 72e26d6..edea22f 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -1657,7 +1657,7 @@ double get_brick_uly(brick_t *brick){
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 double get_brick_y(brick_t *brick, int i){
 
-  return (brick->geotran[_GT_ULY_] + i*brick->geotran[_GT_RES_]);
+  return (brick->geotran[_GT_ULY_] + i*brick->geotran[_GT_YRES_]);
 }
 
 
-- 
2.43.0


From b08d8861c2f72dd6500596ce8fdc98b9216a2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:06 +0000
Subject: [PATCH 03/40] fix: blocks that are skipped hold no data rather than
 zero

The no-data value was set after the first block of an image had been
written. Blocks that are skipped because they are fully masked, or because
they have no input, were therefore filled with zeros that look like valid
data.
---
 src/modules/cross-level/brick_io-cl.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index a444d43..453daf6 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -355,6 +355,14 @@ int write_brick(brick_t *brick){
       }
   
   
+      // nodata needs to be known before the first pixel is written,
+      // otherwise chunks that will never be written are zero
+      for (b=0; b<nbands; b++){
+        GDALSetRasterNoDataValue(
+          GDALGetRasterBand(fp, bands[_FILE_][f][b]), 
+          brick->nodata[bands[_brick_][f][b]]);
+      }
+
       for (b=0; b<nbands; b++){
   
         b_brick = bands[_brick_][f][b];
@@ -400,7 +408,6 @@ int write_brick(brick_t *brick){
         }
   
         GDALSetDescription(band, brick->bandname.string[b_brick]);
-        GDALSetRasterNoDataValue(band, brick->nodata[b_brick]);
   
       }
   
-- 
2.43.0


From 5ac68c63c873b002f356c769e012732af68d568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:04 +0000
Subject: [PATCH 04/40] fix: masked pixels hold no data in composites and polar
 coordinates

Pixels excluded by the processing mask were left at zero in the best
available pixel composites and in the polar-transformed time series, which
looks like valid data.
---
 src/modules/higher-level/level3-hl.c | 11 ++++++++---
 src/modules/higher-level/polar-hl.c  |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/level3-hl.c b/src/modules/higher-level/level3-hl.c
index a59e7a0..53e70d9 100755
--- a/src/modules/higher-level/level3-hl.c
+++ b/src/modules/higher-level/level3-hl.c
@@ -227,7 +227,7 @@ level3_t l3;
 brick_t **LEVEL3;
 small *mask_ = NULL;
 int nprod = 0;
-int p, nx, ny, nc, nb;
+int p, b, nx, ny, nc, nb;
 double res;
 short nodata;
 short lsp_nodata = SHRT_MIN;
@@ -308,7 +308,7 @@ bool water;
     #endif
   }
 
-  #pragma omp parallel private(tdist,score,cor,hmean,hsd,water) firstprivate(target) shared(ard,lsp,l3,nt,nb,nc,lsp_nodata,nodata,mask_,phl,LEVEL3) default(none)
+  #pragma omp parallel private(b,tdist,score,cor,hmean,hsd,water) firstprivate(target) shared(ard,lsp,l3,nt,nb,nc,lsp_nodata,nodata,mask_,phl,LEVEL3) default(none)
   {
 
     if (phl->bap.w.r > 0) alloc_2D((void***)&cor, nt, nt, sizeof(float));
@@ -322,7 +322,12 @@ bool water;
     for (p=0; p<nc; p++){
 
       // skip pixels that are masked
-      if (mask_ != NULL && !mask_[p]) continue;
+      if (mask_ != NULL && !mask_[p]){
+        if (l3.bap != NULL) for (b=0; b<nb; b++)           l3.bap[b][p] = nodata;
+        if (l3.inf != NULL) for (b=0; b<_INF_LENGTH_; b++) l3.inf[b][p] = nodata;
+        if (l3.scr != NULL) for (b=0; b<_SCR_LENGTH_; b++) l3.scr[b][p] = nodata;
+        continue;
+      }
       
       if (phl->bap.pac.lsp) target = compile_target_adaptive(&phl->bap, lsp, p, lsp_nodata);
 
diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index b4db061..0645f7e 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -358,7 +358,10 @@ float green_val, base_val;
         }
       }
       
-      if (mask_ != NULL && !mask_[p]) continue;
+      if (mask_ != NULL && !mask_[p]){
+        for (i=0; i<ni && pol->opct; i++) ts->pcx_[i][p] = ts->pcy_[i][p] = nodata;
+        continue;
+      }
 
 
 
-- 
2.43.0


From 538be9d529b9a7a24440b2dd5283ba909f23618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:52 +0000
Subject: [PATCH 05/40] fix: replace files of earlier runs even if the first
 block is skipped

An image was only created anew, and its provenance was only recorded, when
the first block of a tile was written. If that block was fully masked or
had no input, results were written into a file left by an earlier run, and
the provenance was missing.
---
 src/modules/cross-level/brick_io-cl.cpp | 31 +++++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 453daf6..e8b9b53 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -38,6 +38,28 @@ This file contains functions for organizing bricks in memory, and output
 #include "ogr_spatialref.h" // coordinate systems services
 #endif
 
+#include <set>    // sets
+#include <string> // strings
+
+
+/** This function tells whether a file is written for the first time by 
++++ this program. Files that are left from an earlier run need to be re-
++++ placed, no matter which chunk is the first one that holds any data.
+--- fname:  filename
++++ Return: true/false
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+static bool first_write(const char *fname){
+static std::set<std::string> written;
+bool first;
+
+  #pragma omp critical(first_write)
+  {
+    first = written.insert(fname).second;
+  }
+
+  return first;
+}
+
 
 /** This function outputs a brick
 --- brick:  brick
@@ -80,6 +102,7 @@ int write_brick(brick_t *brick){
   
   char c_update[2][NPOW_10] = { "create", "update" };
   bool update;
+  bool first;
   
   
   char **fp_meta = NULL;
@@ -326,8 +349,8 @@ int write_brick(brick_t *brick){
   
   
       // open for chunk mode or write from scratch
-      if (brick->open == OPEN_CHUNK && fileexist(fname) && 
-         (brick->chunk[_X_] > 0 || brick->chunk[_Y_] > 0)){
+      first = brick->open != OPEN_CHUNK || first_write(fname);
+      if (!first && fileexist(fname)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
       } else {
@@ -475,9 +498,7 @@ int write_brick(brick_t *brick){
       unlock_file(lock);
     
       // write provenance info
-      if (brick->provenance.number > 0 && 
-          brick->chunk[_X_] <= 0 && 
-          brick->chunk[_Y_] <= 0){
+      if (brick->provenance.number > 0 && first){
   
         if ((lock = lock_file(provname, timeout)) == NULL){
           printf("Unable to lock file %s (timeout: %fs). ", provname, timeout);
-- 
2.43.0


From 32a4751aee5fb6dac171199d7ff51d3d576352b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:36 +0000
Subject: [PATCH 06/40] fix: a failed write neither destroys the existing image
 nor keeps its lock

When an image is merged with an existing one, the existing file was
truncated first. If the new file could not be written, the data of earlier
jobs were lost, the lock file stayed behind, and errors that only surface
when the file is closed went unnoticed. Images are now written next to the
existing file and replace it when they are complete.
---
 src/modules/cross-level/brick_io-cl.cpp | 83 ++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 15 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index e8b9b53..5d3de98 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -61,6 +61,33 @@ bool first;
 }
 
 
+/** What needs to be tidied up if writing a file fails
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+struct write_guard {
+  char *lock = NULL;
+  GDALDatasetH fp = NULL;
+  std::string temp;
+  ~write_guard(){
+    if (fp != NULL) GDALClose(fp);
+    if (!temp.empty()) unlink(temp.c_str());
+    unlock_file(lock);
+  }
+};
+
+
+/** This function closes a dataset, which flushes any pending data
+--- fp:     dataset
++++ Return: SUCCESS/FAILURE
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+static int close_dataset(GDALDatasetH fp){
+
+  CPLErrorReset();
+  GDALClose(fp);
+
+  return CPLGetLastErrorType() >= CE_Failure ? FAILURE : SUCCESS;
+}
+
+
 /** This function outputs a brick
 --- brick:  brick
 +++ Return: SUCCESS/FAILURE
@@ -69,7 +96,7 @@ int write_brick(brick_t *brick){
   int f, b, b_;
   int b_brick, b_file, nbands, nfiles;
   int ***bands = NULL;
-  char *lock = NULL;
+  write_guard guard;
   double timeout;
   GDALDatasetH fp_copy = NULL;
   GDALDatasetH fp_finish = NULL;
@@ -92,6 +119,7 @@ int write_brick(brick_t *brick){
   
   char bname[NPOW_10];
   char fname[NPOW_10];
+  char wname[NPOW_10];
   int nchar;
   
   char version[NPOW_10];
@@ -103,6 +131,7 @@ int write_brick(brick_t *brick){
   char c_update[2][NPOW_10] = { "create", "update" };
   bool update;
   bool first;
+  int error;
   
   
   char **fp_meta = NULL;
@@ -244,12 +273,12 @@ int write_brick(brick_t *brick){
   
   
     // output path
-    if ((lock = lock_file(brick->dname.string, 60)) == NULL){
+    if ((guard.lock = lock_file(brick->dname.string, 60)) == NULL){
       printf("Unable to lock directory %s (timeout: %ds). ", brick->dname.string, 60);
       return FAILURE;}
     createdir(brick->dname.string);
-    unlock_file(lock);
-    lock = NULL;
+    unlock_file(guard.lock);
+    guard.lock = NULL;
   
     // provenance file
     current_date(&today);
@@ -274,7 +303,7 @@ int write_brick(brick_t *brick){
   
       timeout = lock_timeout(get_brick_size(brick));
   
-      if ((lock = lock_file(fname, timeout)) == NULL){
+      if ((guard.lock = lock_file(fname, timeout)) == NULL){
         printf("Unable to lock file %s (timeout: %fs, nx/ny: %d/%d). ", fname, timeout, brick->nx, brick->ny);
         return FAILURE;}
   
@@ -292,6 +321,7 @@ int write_brick(brick_t *brick){
   
         if ((fo = GDALOpen(fname, GA_ReadOnly)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
+        guard.fp = fo;
   
         if (GDALGetRasterCount(fo) != nbands){
           printf("Number of bands %d do not match for UPDATE/MERGE mode (file: %d). ", 
@@ -317,7 +347,7 @@ int write_brick(brick_t *brick){
   
           if (GDALRasterIO(band, GF_Read, 0, 0, brick->nx, brick->ny, buf, 
             brick->nx, brick->ny, GDT_Float32, 0, 0) == CE_Failure){
-            printf("Unable to read %s. ", fname); return FAILURE;} 
+            printf("Unable to read %s. ", fname); free((void*)buf); return FAILURE;} 
   
   
           for (int p=0; p<brick->nc; p++){
@@ -340,6 +370,7 @@ int write_brick(brick_t *brick){
         }
   
         GDALClose(fo);
+        guard.fp = NULL;
   
         free((void*)buf);
   
@@ -349,14 +380,22 @@ int write_brick(brick_t *brick){
   
   
       // open for chunk mode or write from scratch
+      // full images are written next to the existing file, which is only 
+      // replaced when the new file is complete
       first = brick->open != OPEN_CHUNK || first_write(fname);
+      nchar = snprintf(wname, NPOW_10, "%s/%s%s.%s", brick->dname.string, brick->fname.string, bname, 
+        brick->open == OPEN_CHUNK ? brick->format.extension.string : "tmp");
+      if (nchar < 0 || nchar >= NPOW_10){ 
+        printf("Buffer Overflow in assembling filename\n"); return FAILURE;}
+      if (brick->open != OPEN_CHUNK) guard.temp = wname;
       if (!first && fileexist(fname)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
       } else {
-        if ((fp = GDALCreate(driver_create, fname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
+        if ((fp = GDALCreate(driver_create, wname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
           printf("Error creating file %s. ", fname); return FAILURE;}
       }
+      guard.fp = fp;
         
       if (brick->open == OPEN_CHUNK){
         if (brick->chunk[_X_] < 0 || 
@@ -444,7 +483,7 @@ int write_brick(brick_t *brick){
   
       // copy to physical file. This is needed for drivers that do not support CREATE
       if (!create){
-        if ((fp_copy = GDALCreateCopy(driver_physical, fname, fp, FALSE, options, NULL, NULL)) == NULL){
+        if ((fp_copy = GDALCreateCopy(driver_physical, wname, fp, FALSE, options, NULL, NULL)) == NULL){
           printf("Error creating file %s. ", fname); return FAILURE;}
         fp_finish = fp_copy;
       } else {
@@ -491,16 +530,26 @@ int write_brick(brick_t *brick){
   
       }
    
-      if (!create) GDALClose(fp_copy);
-      GDALClose(fp);
-  
+      guard.fp = NULL;
+      error = 0;
+      if (!create && close_dataset(fp_copy) != SUCCESS) error++;
+      if (close_dataset(fp) != SUCCESS) error++;
+      if (error > 0){
+        printf("Unable to write %s. ", fname); return FAILURE;}
+
+      if (brick->open != OPEN_CHUNK){
+        if (rename(wname, fname) != 0){
+          printf("Unable to replace %s. ", fname); return FAILURE;}
+        guard.temp.clear();
+      }
     
-      unlock_file(lock);
+      unlock_file(guard.lock);
+      guard.lock = NULL;
     
       // write provenance info
       if (brick->provenance.number > 0 && first){
   
-        if ((lock = lock_file(provname, timeout)) == NULL){
+        if ((guard.lock = lock_file(provname, timeout)) == NULL){
           printf("Unable to lock file %s (timeout: %fs). ", provname, timeout);
           return FAILURE;}
   
@@ -527,9 +576,13 @@ int write_brick(brick_t *brick){
         for (int p=0; p<(brick->provenance.number-1); p++) fprintf(fprov, "%s;", brick->provenance.string[p]);
         fprintf(fprov, "%s,%s,%s\n", brick->provenance.string[brick->provenance.number-1], c_update[update], lwritetime);
 
-        fclose(fprov);
+        error = ferror(fprov);
+        if (fclose(fprov) != 0 || error){
+          printf("Unable to write provenance file!\n"); 
+          return FAILURE;}
   
-        unlock_file(lock);
+        unlock_file(guard.lock);
+        guard.lock = NULL;
   
       }
     
-- 
2.43.0


From 08820337ff42bc78bf404482619279ecfface522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:58 +0000
Subject: [PATCH 07/40] fix: only publish complete datacube definitions

The definition was written in place, without noticing errors, and jobs that
waited for the lock wrote it a second time. Other jobs could read a partial
file, and a failed or interrupted write left a partial file for good.
---
 src/modules/cross-level/cube-cl.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index 4c3cfb1..b9b1d0b 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -241,16 +241,27 @@ double tol = 5e-3;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int write_datacube_def(cube_t *cube){
 char *lock = NULL;
+char tempname[NPOW_10];
 FILE *fp = NULL;
+int error = 0;
 
   concat_string_2(cube->def_path, NPOW_10, cube->dir_path, "datacube-definition.prj", "/");
 
+  if (fileexist(cube->def_path)) return SUCCESS;
+
+  if ((lock = lock_file(cube->def_path, 60)) == NULL) return FAILURE;
+
+  // another job might have written the file while waiting for the lock
   if (!fileexist(cube->def_path)){
 
-    if ((lock = lock_file(cube->def_path, 60)) == NULL) return FAILURE;
+    // only a complete file shall be visible to other jobs
+    concat_string_2(tempname, NPOW_10, cube->def_path, "tmp", ".");
 
-    if ((fp = fopen(cube->def_path, "w")) == NULL){
-      printf("Unable to open %s. ", cube->def_path); return FAILURE;}
+    if ((fp = fopen(tempname, "w")) == NULL){
+      printf("Unable to open %s. ", tempname); 
+      unlock_file(lock);
+      return FAILURE;
+    }
 
     fprintf(fp, "PROJECTION = %s\n", cube->projection);
     fprintf(fp, "ORIGIN_GEO_X = %f\n", cube->origin_geo.x);
@@ -260,12 +271,18 @@ FILE *fp = NULL;
     fprintf(fp, "TILE_SIZE_X = %f\n", cube->tile_size[_X_]);
     fprintf(fp, "TILE_SIZE_Y = %f\n", cube->tile_size[_Y_]);
 
-    fclose(fp);
-
-    unlock_file(lock);
+    error = ferror(fp);
+    if (fclose(fp) != 0 || error || rename(tempname, cube->def_path) != 0){
+      printf("Unable to write %s. ", cube->def_path); 
+      unlink(tempname);
+      unlock_file(lock);
+      return FAILURE;
+    }
 
   }
 
+  unlock_file(lock);
+
   return SUCCESS;
 }
 
-- 
2.43.0


From 831f1f2faa74dc7157c776378c7eb4b17a6ef2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:58 +0000
Subject: [PATCH 08/40] fix: failing to create a directory is an error of the
 caller

A directory created by another job in the meantime is not an error. Any
other error ended the program while it held a lock.
---
 src/modules/cross-level/brick_io-cl.cpp | 4 +++-
 src/modules/cross-level/dir-cl.c        | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 5d3de98..32030de 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -276,7 +276,9 @@ int write_brick(brick_t *brick){
     if ((guard.lock = lock_file(brick->dname.string, 60)) == NULL){
       printf("Unable to lock directory %s (timeout: %ds). ", brick->dname.string, 60);
       return FAILURE;}
-    createdir(brick->dname.string);
+    if (createdir(brick->dname.string) == FAILURE){
+      printf("Unable to create directory %s. ", brick->dname.string);
+      return FAILURE;}
     unlock_file(guard.lock);
     guard.lock = NULL;
   
diff --git a/src/modules/cross-level/dir-cl.c b/src/modules/cross-level/dir-cl.c
index b6bfc5f..70e18c2 100755
--- a/src/modules/cross-level/dir-cl.c
+++ b/src/modules/cross-level/dir-cl.c
@@ -179,8 +179,9 @@ struct stat sb;
 
   if ((e = stat(dir_path, &sb)) != 0){
     if (errno == ENOENT){
-      if ((e = mkdir(dir_path, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH)) != 0){
-        printf("mkdir failed\n"); exit(1);}
+      // another job might have created the directory in the meantime
+      if ((e = mkdir(dir_path, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH)) != 0 && errno != EEXIST){
+        printf("mkdir failed\n"); return FAILURE;}
     }
   }
 
-- 
2.43.0


From d083383ebd6b885c881d9c613c9fea49e9cfbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:58 +0000
Subject: [PATCH 09/40] fix: release the lock if the citation file cannot be
 opened

---
 src/modules/cross-level/cite-cl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/cross-level/cite-cl.c b/src/modules/cross-level/cite-cl.c
index 33143d7..c19141b 100755
--- a/src/modules/cross-level/cite-cl.c
+++ b/src/modules/cross-level/cite-cl.c
@@ -460,6 +460,7 @@ int i;
 
   if ((_cite_fp_ = fopen(fname, "w")) == NULL){
     printf("Unable to open CITEME file!\n"); 
+    unlock_file(lock);
     return;}
 
   fprintf(_cite_fp_, "FORCE - Framework for Operational Radiometric "
-- 
2.43.0


From 192c5483bcb5fa4e8be471f85ef57823d2298925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:58 +0000
Subject: [PATCH 10/40] fix: higher level processing reports reading and
 writing errors

Blocks that could not be read or written were skipped, yet the program
ended with exit code 0. The number of bytes read and written only covered
the last block, such that an empty last block looked like no data at all.
---
 src/main/higher-level/force-higher-level.c | 16 ++++---
 src/modules/higher-level/read-ard-hl.c     | 12 +++++-
 src/modules/higher-level/sample-hl.c       |  6 ++-
 src/modules/higher-level/tasks-hl.c        | 50 +++++++++++++---------
 src/modules/higher-level/tasks-hl.h        |  4 +-
 5 files changed, 57 insertions(+), 31 deletions(-)

diff --git a/src/main/higher-level/force-higher-level.c b/src/main/higher-level/force-higher-level.c
index 25e2ebc..6b89070 100755
--- a/src/main/higher-level/force-higher-level.c
+++ b/src/main/higher-level/force-higher-level.c
@@ -141,6 +141,7 @@ int         *nprod    = NULL;
 GDALDriverH driver;
 progress_t  pro;
 off_t ibytes = 0, obytes = 0;
+int         failed    = 0;
 int         exit_code = SUCCESS;
 
 
@@ -217,24 +218,24 @@ int         exit_code = SUCCESS;
 
     if (phl->stream){
 
-      #pragma omp parallel num_threads(3) shared(ARD1,ARD2,MASK,OUTPUT,aux,nprod,nt1,nt2,pro,cube,phl) reduction(+: ibytes, obytes) default(none)
+      #pragma omp parallel num_threads(3) shared(ARD1,ARD2,MASK,OUTPUT,aux,nprod,nt1,nt2,pro,cube,phl) reduction(+: ibytes, obytes, failed) default(none)
       {
 
         if (omp_get_thread_num() == 0){
-          read_higher_level(&pro, &ibytes, MASK, ARD1, ARD2, nt1, nt2, cube, phl);
+          failed += read_higher_level(&pro, &ibytes, MASK, ARD1, ARD2, nt1, nt2, cube, phl) != SUCCESS;
         } else if (omp_get_thread_num() == 1){
           compute_higher_level(&pro, MASK, ARD1, ARD2, nt1, nt2, cube, phl, aux, OUTPUT, nprod);
         } else {
-          output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
+          failed += output_higher_level(&pro, &obytes, OUTPUT, nprod, phl) != SUCCESS;
         }
 
       }
 
     } else {
 
-      read_higher_level(&pro, &ibytes, MASK, ARD1, ARD2, nt1, nt2, cube, phl);
+      failed += read_higher_level(&pro, &ibytes, MASK, ARD1, ARD2, nt1, nt2, cube, phl) != SUCCESS;
       compute_higher_level(&pro, MASK, ARD1, ARD2, nt1, nt2, cube, phl, aux, OUTPUT, nprod);
-      output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
+      failed += output_higher_level(&pro, &obytes, OUTPUT, nprod, phl) != SUCCESS;
 
     }
 
@@ -242,6 +243,11 @@ int         exit_code = SUCCESS;
 
   exit_code = handle_no_io(ibytes, obytes, phl);
 
+  if (failed > 0){
+    printf("Error: reading or writing failed for %d processing units.\n", failed);
+    exit_code = FAILURE;
+  }
+
   cite_push(phl->d_higher);
 
 
diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index 3d7f226..c58fa18 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -27,6 +27,8 @@ This file contains functions for reading ARD
 
 #include "read-ard-hl.h"
 
+#include <errno.h> // error numbers
+
 /** Geospatial Data Abstraction Library (GDAL) **/
 #include "cpl_conv.h"       // various convenience functions for CPL
 #include "gdal.h"           // public (C callable) GDAL entry points
@@ -282,7 +284,10 @@ dir_t d;
 
   // directory listing
   if ((d.N = scandir(d.name, &d.LIST, 0, alphasort)) < 0){
-    return FAILURE;}
+    if (errno == ENOENT) return FAILURE;
+    printf("Unable to list %s.\n", d.name);
+    exit(FAILURE);
+  }
 
   // masks
   alloc_2D((void***)&d.list, d.N, NPOW_10, sizeof(char));
@@ -340,7 +345,10 @@ int nchar;
 
   // directory listing
   if ((d.N = scandir(d.name, &d.LIST, 0, alphasort)) < 0){
-    return FAILURE;}
+    if (errno == ENOENT) return FAILURE;
+    printf("Unable to list %s.\n", d.name);
+    exit(FAILURE);
+  }
 
   #ifdef FORCE_DEBUG
   printf("found %d files, filtering now\n", d.N);
diff --git a/src/modules/higher-level/sample-hl.c b/src/modules/higher-level/sample-hl.c
index f78d979..70e236d 100755
--- a/src/modules/higher-level/sample-hl.c
+++ b/src/modules/higher-level/sample-hl.c
@@ -38,7 +38,7 @@ This file contains functions for sampling of features
 void append_table(char *fname, bool *allow, double **tab, int nrow, int ncol, int decimals);
 
 void append_table(char *fname, bool *allow, double **tab, int nrow, int ncol, int decimals){
-int row, col;
+int row, col, error;
 FILE *fp = NULL;
 
 
@@ -56,7 +56,9 @@ FILE *fp = NULL;
 
   }
 
-  fclose(fp);
+  error = ferror(fp);
+  if (fclose(fp) != 0 || error){
+    printf("unable to write %s. ", fname); exit(FAILURE);}
 
   return;
 }
diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 907f6ab..2cd0f83 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -44,13 +44,13 @@ This file contains functions for higher level tasks
 --- nt2:      number of secondary ARD products
 --- cube:     datacube definition
 --- phl:      HL parameters
-+++ Return:   void
++++ Return:   SUCCESS/FAILURE
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-void read_higher_level (progress_t *pro, off_t *ibytes, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl){
+int read_higher_level (progress_t *pro, off_t *ibytes, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl){
 int mask_status;
 off_t bytes = 0;
 
-  if (!read_this_chunk(pro)) return;
+  if (!read_this_chunk(pro)) return SUCCESS;
 
   int pu = pro->next.processing_unit;
   int tile[2] = { pro->next.tile[_X_], pro->next.tile[_Y_] };
@@ -76,7 +76,7 @@ off_t bytes = 0;
       //printf("no mask data. skip chunk.\n");
     }
     measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
-    return;
+    return (mask_status == FAILURE) ? FAILURE : SUCCESS;
   }
 
 
@@ -94,7 +94,7 @@ off_t bytes = 0;
     printf("error reading data from tile X%04d_Y%04d chunk X:%d Y:%d.\n", 
       tile[_X_], tile[_Y_], chunk[_X_], chunk[_Y_]);
     measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
-    return;
+    return FAILURE;
   }
 
 
@@ -111,16 +111,19 @@ off_t bytes = 0;
   if (ARD2[pu] == NULL && nt2[pu] < 0){
     printf("error reading secondary data from tile X%04d_Y%04d chunk X:%d Y:%d.\n", 
       tile[_X_], tile[_Y_], chunk[_X_], chunk[_Y_]);
+    free_ard(ARD1[pu], nt1[pu]);
+    ARD1[pu] = NULL;
+    nt1[pu]  = -1;
     measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
-    return;
+    return FAILURE;
   }
 
 
-  *ibytes = bytes;
+  *ibytes += bytes;
 
   measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
 
-  return;
+  return SUCCESS;
 }
 
 
@@ -249,24 +252,24 @@ bool error = false;
 --- OUTPUT:   OUTPUT bricks
 --- nproduct: number of output bricks
 --- phl:      HL parameters
-+++ Return:   void
++++ Return:   SUCCESS/FAILURE
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl){
+int output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl){
 char dname[NPOW_10]; 
 int nchar;
 char *lock = NULL;
-bool error = false;
+int error = 0;
 off_t bytes = 0;
 int o;
 
 
-  if (!write_this_chunk(pro, nprod)) return;
+  if (!write_this_chunk(pro, nprod)) return SUCCESS;
 
   int pu = pro->last.processing_unit;
   int tile[2] = { pro->last.tile[_X_], pro->last.tile[_Y_] };
 
 
-  if (OUTPUT[pu] == NULL) return;
+  if (OUTPUT[pu] == NULL) return SUCCESS;
 
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TICK_);
@@ -277,18 +280,21 @@ int o;
 
   if ((lock = lock_file(dname, 60)) == NULL){
     printf("Unable to lock directory %s (timeout: %ds). ", dname, 60);
-    error = true;
+    error++;
   }
 
-  if (!error){
+  if (error == 0){
 
-    createdir(dname);
+    if (createdir(dname) == FAILURE){
+      printf("Unable to create directory %s. ", dname);
+      error++;
+    }
     unlock_file(lock);
     lock = NULL;
 
     omp_set_num_threads(phl->othread);
   
-    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes) default(none)
+    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes, error) default(none)
     {
 
       CPLPushErrorHandler(CPLQuietErrorHandler);
@@ -298,7 +304,11 @@ int o;
       for (o=0; o<nprod[pu]; o++){
         if (phl->radius > 0) OUTPUT[pu][o] = crop_brick(
           OUTPUT[pu][o], phl->radius);
-        write_brick(OUTPUT[pu][o]);
+        if (write_brick(OUTPUT[pu][o]) != SUCCESS){
+          printf("Error writing output.\n");
+          error++;
+          continue;
+        }
         if (OUTPUT[pu][o] != NULL && 
             get_brick_open(OUTPUT[pu][o]) != OPEN_FALSE){
             bytes += get_brick_size(OUTPUT[pu][o]);
@@ -317,11 +327,11 @@ int o;
   free((void*)OUTPUT[pu]);
   OUTPUT[pu] = NULL;
 
-  *obytes = bytes;
+  *obytes += bytes;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
-  return;
+  return (error > 0) ? FAILURE : SUCCESS;
 }
 
 
diff --git a/src/modules/higher-level/tasks-hl.h b/src/modules/higher-level/tasks-hl.h
index a571e7e..f990aa8 100755
--- a/src/modules/higher-level/tasks-hl.h
+++ b/src/modules/higher-level/tasks-hl.h
@@ -60,9 +60,9 @@ Higher level tasks header
 extern "C" {
 #endif
 
-void read_higher_level (progress_t *pro, off_t *ibytes, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl);
+int read_higher_level (progress_t *pro, off_t *ibytes, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl);
 void compute_higher_level (progress_t *pro, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl, aux_t *aux, brick_t ***OUTPUT, int *nprod);
-void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl);
+int output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl);
 int handle_no_io(off_t ibytes, off_t obytes, par_hl_t *phl);
 
 #ifdef __cplusplus
-- 
2.43.0


From 6e8c86d8dd32c01a838f37a3afa86cf7a75cbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:05 +0000
Subject: [PATCH 11/40] fix: read the right margin of the western neighbour
 block

---
 src/modules/higher-level/read-ard-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index c58fa18..ee32f91 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -1005,7 +1005,7 @@ double tol = 5e-3;
 
   if (fabs(partial_x) > tol){
     width = fabs(partial_x);
-    if (partial_x < 0) x_offset = chunk_size[_X_]+partial_x;
+    if (partial_x < 0) x_offset = x_offset+chunk_size[_X_]+partial_x;
   }
   
   if (fabs(partial_y) > tol){
-- 
2.43.0


From c486d6fc068253fd2473114f929a100c35c5ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:31 +0000
Subject: [PATCH 12/40] fix: masked pixels hold no data in improved continuous
 fields, years without images do not end the prediction

---
 src/modules/higher-level/cf-improphe-hl.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index 371e522..63ff9b0 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -265,15 +265,21 @@ bool is_empty;
     if (is_empty){
 
       for (f=0; f<ncf; f++){
-        #pragma omp parallel shared(cfi,cf,nc,y,f,b_cf) default(none)
+        #pragma omp parallel shared(mask_,cfi,cf,nc,y,f,b_cf,cf_nodata) default(none)
         {
           #pragma omp for
-          for (p=0; p<nc; p++) cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
+          for (p=0; p<nc; p++){
+            if (mask_ != NULL && !mask_[p]){
+              cfi.imp_[f][y][p] = cf_nodata;
+            } else {
+              cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
+            }
+          }
         }
       }
 
-      *nproduct = nprod;
-      return CFI;
+      free_2D((void**)seasonal_avg_, phl->imp.nwin*nb_ard);
+      continue;
 
     }
 
@@ -321,6 +327,7 @@ bool is_empty;
             //cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
             cf_[f][p] = cf_nodata;
           } else {
+            pred_[f][p] = cf_nodata;
             cf_[f][p] = cf[f].dat[b_cf][p];
           }
         }
@@ -344,10 +351,10 @@ bool is_empty;
 
         p = i*nx+j;
 
-        if (cf_[0][p] == cf_nodata) continue;
-
-        improphe(ard_, ard_tex_, cf_, cf_tex_, pred_, KDIST, ard_nodata, cf_nodata, i, j, p, 
-          nx, ny, phl->imp.ksize, npc, ncf, nk, mink);
+        if (cf_[0][p] != cf_nodata){
+          improphe(ard_, ard_tex_, cf_, cf_tex_, pred_, KDIST, ard_nodata, cf_nodata, i, j, p, 
+            nx, ny, phl->imp.ksize, npc, ncf, nk, mink);
+        }
 
         for (f=0; f<ncf; f++) cfi.imp_[f][y][p] = pred_[f][p];
 
-- 
2.43.0


From ae0ce4ea8ac0e2a3554d2eacffbf1cef67494072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:29 +0000
Subject: [PATCH 13/40] fix: continental GLANCE7 grids are found by the names
 users give them

A cube definition for GLANCE7-EU and its siblings was silently not created,
because the names were compared with GLANCE-EU and so on.
---
 src/modules/lower-level/glance7-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/glance7-ll.c b/src/modules/lower-level/glance7-ll.c
index af5d3cf..eb844b3 100755
--- a/src/modules/lower-level/glance7-ll.c
+++ b/src/modules/lower-level/glance7-ll.c
@@ -42,7 +42,7 @@ static char name7[7][NPOW_10] = {
 
 // projection name of continental cube
 static char projname7[7][NPOW_10] = {
-  "GLANCE-AF", "GLANCE-AN", "GLANCE-AS", "GLANCE-EU", "GLANCE-NA", "GLANCE-OC", "GLANCE-SA" };
+  "GLANCE7-AF", "GLANCE7-AN", "GLANCE7-AS", "GLANCE7-EU", "GLANCE7-NA", "GLANCE7-OC", "GLANCE7-SA" };
 
 
 // abbreviation of continental cube
-- 
2.43.0


From 602c76bb6c88c58fa7203976d4adfa3a595d7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:53 +0000
Subject: [PATCH 14/40] fix: lock the queue while force-level2 cleans it

The queue was rewritten without its lock when force-level2 starts.
Entries that a download appended in the meantime were lost.
---
 bash/force-level2.sh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index c065e7b..d337cd8 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -348,12 +348,17 @@ if is_lt "$TIMEOUT_ZIP" 0; then
 fi
 
 
-# do some cleaning in the queue
+# do some cleaning in the queue; queue must be locked and unlocked
+if ! $LOCK_CREATE_EXE "$FILE_QUEUE"; then
+  echoerr "could not lock $FILE_QUEUE"
+  exit 1
+fi
 $UNIX_EOL_EXE -q "$FILE_QUEUE"
 sed -i -E 's/\t/ /g' "$FILE_QUEUE"
 sed -i -E 's/ +/ /g' "$FILE_QUEUE"
 sed -i -E 's/^ //' "$FILE_QUEUE"
 sed -i -E 's/ $//' "$FILE_QUEUE"
+$LOCK_REMOVE_EXE "$FILE_QUEUE"
 
 # get queued files
 QUEUE=$(grep 'QUEUED' "$FILE_QUEUE" | sed 's/QUEUED//g')
-- 
2.43.0


From 647190df532393f3f62a582780babf8a84a3e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:53 +0000
Subject: [PATCH 15/40] fix: overwrite leftovers when unpacking zip images

An image that was partly unpacked when processing got interrupted
was marked as failed in the next run, because unzip does not overwrite.
---
 bash/force-level2.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index d337cd8..d84f277 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -188,7 +188,7 @@ function process_this_image(){
     # when downloaded from CDSE, make sure that .SAFE is included only once
     EXTRACT_IMAGE=${EXTRACT_IMAGE//.SAFE.SAFE/.SAFE}
 
-    timeout -k "$TIMEOUT_ZIP" 10m unzip -qq -d "$DIR_TEMP" "$FILE_IMAGE" &>/dev/null
+    timeout -k "$TIMEOUT_ZIP" 10m unzip -o -qq -d "$DIR_TEMP" "$FILE_IMAGE" &>/dev/null
     if [ ! $? -eq 0 ]; then
       UNPACK_STATUS="FAIL"
       echo "zip container is corrupt, connection stalled or similar." >> "$FILE_LOG"
-- 
2.43.0


From befd02000b0fe61deb51a2e570b4fd18b67567aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:53 +0000
Subject: [PATCH 16/40] fix: update the status of exactly one queue entry, and
 in one step

The image path was used as unanchored regular expression, entries with
similar paths got the status of another image. There was a moment
without queue file, it was gone if processing got interrupted there.
---
 bash/force-level2.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index d84f277..dc8a397 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -263,9 +263,10 @@ function process_this_image(){
 
   # update queue status; queue must be locked and unlocked
   $LOCK_CREATE_EXE "$FILE_QUEUE"
-  sed -i.tmp -E "s+($FILE_IMAGE) .*+\1 $STATUS+" "$FILE_QUEUE"
-  chmod --reference "$FILE_QUEUE.tmp" "$FILE_QUEUE"
-  rm "$FILE_QUEUE.tmp"
+  FILE_IMAGE="$FILE_IMAGE" awk -v status="$STATUS" \
+    '$1 == ENVIRON["FILE_IMAGE"] { $0 = $1 " " status } { print }' "$FILE_QUEUE" > "$FILE_QUEUE.tmp" && \
+    chmod --reference "$FILE_QUEUE" "$FILE_QUEUE.tmp" && \
+    mv "$FILE_QUEUE.tmp" "$FILE_QUEUE"
   $LOCK_REMOVE_EXE "$FILE_QUEUE"
 
 }
-- 
2.43.0


From 6bca3da4ba949808c706850f1f35f077e138457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:07 +0000
Subject: [PATCH 17/40] fix: report products that could not be written
 completely

Data may be flushed while a product is still open. If this failed, none
of the called functions reported it, and the damaged product was kept.
---
 src/modules/cross-level/brick_io-cl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 32030de..cb49650 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -390,6 +390,7 @@ int write_brick(brick_t *brick){
       if (nchar < 0 || nchar >= NPOW_10){ 
         printf("Buffer Overflow in assembling filename\n"); return FAILURE;}
       if (brick->open != OPEN_CHUNK) guard.temp = wname;
+      CPLErrorReset();
       if (!first && fileexist(fname)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
@@ -534,6 +535,8 @@ int write_brick(brick_t *brick){
    
       guard.fp = NULL;
       error = 0;
+      // pending data may have been flushed in vain without any function telling so
+      if (CPLGetLastErrorType() >= CE_Failure) error++;
       if (!create && close_dataset(fp_copy) != SUCCESS) error++;
       if (close_dataset(fp) != SUCCESS) error++;
       if (error > 0){
-- 
2.43.0


From a4b9a2317eea0538367659f61dee477c57d4e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:59 +0000
Subject: [PATCH 18/40] fix: do not take incomplete downloads for complete
 scenes

force-level1-csd skipped every non-empty scene directory without
temporary files. A scene whose download failed or was interrupted
between two files was never completed and never queued. Scenes are now
downloaded next to their destination and appear in the pool together
with their queue entry. force-level2 reads the queue while it is
locked. Two downloads may create the same tile directory.
---
 bash/force-level1-csd.sh | 15 ++++++++++++---
 bash/force-level2.sh     |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/bash/force-level1-csd.sh b/bash/force-level1-csd.sh
index 651b8ba..f92ca49 100755
--- a/bash/force-level1-csd.sh
+++ b/bash/force-level1-csd.sh
@@ -641,7 +641,7 @@ EOF
 
       # create target directory if it doesn't exist
       if [ ! -w "$TILEPATH" ]; then
-        mkdir "$TILEPATH"
+        mkdir -p "$TILEPATH"
         if [ ! -w "$TILEPATH" ]; then
           printf "%s\n" "" "$TILEPATH: Creating directory failed." ""
           exit 1
@@ -649,10 +649,19 @@ EOF
       fi
 
       printf "\e[500D\e[2A\e[2KDownloading "$SCENEID"("$ITER" of "$NSCENES")...\e[2B"
-      gsutil -m -q cp -R $URL "$TILEPATH"
+      # scenes are downloaded next to their destination, such that incomplete ones are not taken for complete
+      INCOMPLETE="$TILEPATH"/.incomplete
+      mkdir -p "$INCOMPLETE"
+      if [ -d "$SCENEPATH" ]; then
+        mv "$SCENEPATH" "$INCOMPLETE"
+      fi
+      gsutil -m -q cp -R $URL "$INCOMPLETE"
 
       lockfile-create $QUEUE
-      echo "$SCENEPATH QUEUED" >> $QUEUE
+      if ! grep -qxF "$SCENEPATH QUEUED" $QUEUE 2> /dev/null; then
+        echo "$SCENEPATH QUEUED" >> $QUEUE
+      fi
+      mv "$INCOMPLETE"/$SCENEID "$TILEPATH"
       lockfile-remove $QUEUE
 
       ((ITER++))
diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index dc8a397..1fdd002 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -359,10 +359,10 @@ sed -i -E 's/\t/ /g' "$FILE_QUEUE"
 sed -i -E 's/ +/ /g' "$FILE_QUEUE"
 sed -i -E 's/^ //' "$FILE_QUEUE"
 sed -i -E 's/ $//' "$FILE_QUEUE"
-$LOCK_REMOVE_EXE "$FILE_QUEUE"
 
 # get queued files
 QUEUE=$(grep 'QUEUED' "$FILE_QUEUE" | sed 's/QUEUED//g')
+$LOCK_REMOVE_EXE "$FILE_QUEUE"
 
 # count input
 NUM=$(echo "$QUEUE" | wc -w)
-- 
2.43.0


From d0a60671a4e048b6099912ce37822d3536ddbdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:06 +0000
Subject: [PATCH 19/40] fix: repeat interrupted work over what it left behind

An incomplete image of an interrupted run made writing fail when the
work was repeated: opening it left an error behind that was taken for an
error of the new file. It is removed first now. A provenance file that
an interrupted run left empty did not get its header line any more.
---
 src/modules/cross-level/brick_io-cl.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index cb49650..2814dff 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -390,6 +390,13 @@ int write_brick(brick_t *brick){
       if (nchar < 0 || nchar >= NPOW_10){ 
         printf("Buffer Overflow in assembling filename\n"); return FAILURE;}
       if (brick->open != OPEN_CHUNK) guard.temp = wname;
+      // remove what is left from an earlier run, which may be incomplete
+      if (first && fileexist(wname)){
+        CPLPushErrorHandler(CPLQuietErrorHandler);
+        GDALDeleteDataset(NULL, wname);
+        CPLPopErrorHandler();
+        unlink(wname);
+      }
       CPLErrorReset();
       if (!first && fileexist(fname)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
@@ -570,10 +577,12 @@ int write_brick(brick_t *brick){
             printf("Unable to create provenance file!\n"); 
             return FAILURE;}
   
-          fprintf(fprov, "%s,%s,%s,%s\n", "file", "origin", "mode", "creation");
-  
         }
   
+        // a new file, or an empty one that an interrupted run left
+        fseek(fprov, 0, SEEK_END);
+        if (ftell(fprov) == 0) fprintf(fprov, "%s,%s,%s,%s\n", "file", "origin", "mode", "creation");
+  
         current_date(&today);
         long_date(today.year, today.month, today.day, today.hh, today.mm, today.ss, today.tz, lwritetime, NPOW_10);
   
-- 
2.43.0


From 74009c75b20e7f606e21daec3e597e898c1a8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:06 +0000
Subject: [PATCH 20/40] fix: report images without readable georeference as
 reading error

A missing geotransformation was ignored, and an empty projection ended
the program in a reading thread while other threads hold locks.
---
 src/modules/higher-level/read-ard-hl.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index ee32f91..11047ca 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -1092,9 +1092,18 @@ double tol = 5e-3;
 
   // number of pixels, resolution and projection in image on disc
 
-  GDALGetGeoTransform(dataset, geotran_disc); 
+  if (GDALGetGeoTransform(dataset, geotran_disc) != CE_None){
+    printf("unable to read geotransformation of %s. ", file); 
+    GDALClose(dataset);
+    return NULL;
+  }
   res_disc = geotran_disc[_GT_RES_];
   copy_string(projection_disc, NPOW_10, GDALGetProjectionRef(dataset));
+  if (strlen(projection_disc) < 1){
+    printf("unable to read projection of %s. ", file); 
+    GDALClose(dataset);
+    return NULL;
+  }
 
   #ifdef FORCE_DEBUG
   print_dvector(geotran_disc, "Geotransformation", _GT_LEN_, 10, 2);
-- 
2.43.0


From eef3791bf8d0b350dd5f2b6001c1bcd36d297fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:06 +0000
Subject: [PATCH 21/40] fix: fill error layer of spectral unmixing outside of
 the processing mask

Masked pixels held 0 instead of no data, which also depended on the
block layout.
---
 src/modules/higher-level/index-compute-hl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 4750307..192d6c4 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -575,7 +575,10 @@ gsl_vector *a   =  NULL;
     for (p=0; p<nc; p++){
 
       if (mask_ != NULL && !mask_[p]){
-        for (t=0; t<nt; t++) ts->tss_[t][p] = nodata;
+        for (t=0; t<nt; t++){
+          ts->tss_[t][p] = nodata;
+          if (sma->orms) ts->rms_[t][p] = nodata;
+        }
         continue;
       }
       
-- 
2.43.0


From 4ab34072ac256430472665ef113c6573bda0f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:43 +0000
Subject: [PATCH 22/40] fix: regression-based resolution merge does not read
 its own predictions

The regression of the 20m bands replaced the bands while neighboring pixels
still needed them as observations. The product depended on the order in which
the threads processed the image rows. Predictions are now kept apart and
replace the bands at the end, as in the other resolution merge options.
---
 src/modules/lower-level/resmerge-ll.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/resmerge-ll.c b/src/modules/lower-level/resmerge-ll.c
index 89a3ab7..bebe606 100755
--- a/src/modules/lower-level/resmerge-ll.c
+++ b/src/modules/lower-level/resmerge-ll.c
@@ -97,6 +97,7 @@ gsl_vector *x, **y, **c;
 gsl_multifit_linear_workspace **work;
 double chisq, est, err;
 short **toa_ = NULL;
+short **pred_ = NULL;
 
 
   #ifdef FORCE_CLOCK
@@ -123,8 +124,11 @@ short **toa_ = NULL;
   // kernel size
   w = r*2+1; nw = w*w;
 
+  // predictions are kept apart, neighboring pixels need the unmerged data
+  alloc_2D((void***)&pred_, nb, nx*ny, sizeof(short));
+
 
-  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,bands,green,red,bnir) default(none)
+  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,pred_,bands,green,red,bnir) default(none)
   {
 
     /** initialize and allocate
@@ -208,7 +212,7 @@ short **toa_ = NULL;
 
         gsl_multifit_linear(X, y[b], c[b], cov[b], &chisq, work[b]);
         gsl_multifit_linear_est(x, c[b], cov[b], &est, &err);
-        toa_[bands[b]][p] = (short)(est*10000);
+        pred_[b][p] = (short)(est*10000);
 
       }
 
@@ -228,6 +232,14 @@ short **toa_ = NULL;
 
   }
 
+  // update toa with prediction
+  for (p=0; p<nx*ny; p++){
+    if (get_off(QAI, p) || get_cloud(QAI, p) > 0 || get_shadow(QAI, p)) continue;
+    for (b=0; b<nb; b++) toa_[bands[b]][p] = pred_[b][p];
+  }
+
+  free_2D((void**)pred_, nb);
+
   #ifdef FORCE_DEBUG
   set_brick_filename(TOA, "TOA-RESMERGED");
   print_brick_info(TOA); set_brick_open(TOA, OPEN_CREATE); write_brick(TOA);
-- 
2.43.0


From db38750aa11f8d8e8b0ac7ded695bdb969d6de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:32 +0000
Subject: [PATCH 23/40] fix: treat reading errors of text inputs as errors

Tables, tag and value files, image metadata, aerosol and water vapor lookup
tables are read line by line. A reading error looked like the end of the file,
so that processing went on with a part of the input, or crashed on incomplete
Sentinel-2 metadata.
---
 src/modules/cross-level/read-cl.c  | 7 +++++++
 src/modules/cross-level/table-cl.c | 5 +++++
 src/modules/lower-level/aod-ll.c   | 3 +++
 src/modules/lower-level/gas-ll.c   | 3 +++
 src/modules/lower-level/meta-ll.c  | 9 +++++++++
 5 files changed, 27 insertions(+)

diff --git a/src/modules/cross-level/read-cl.c b/src/modules/cross-level/read-cl.c
index 96b5c84..4a9b637 100755
--- a/src/modules/cross-level/read-cl.c
+++ b/src/modules/cross-level/read-cl.c
@@ -88,6 +88,13 @@ int n_buf = 1;
 
   }
 
+  if (ferror(fp)){
+    printf("unable to read tag and value file %s. ", fname); 
+    free_3D((void***)tagval, n_buf, _TV_LENGTH_);
+    fclose(fp);
+    return NULL;
+  }
+
   fclose(fp);
 
 
diff --git a/src/modules/cross-level/table-cl.c b/src/modules/cross-level/table-cl.c
index f6cfda4..88a8c7b 100755
--- a/src/modules/cross-level/table-cl.c
+++ b/src/modules/cross-level/table-cl.c
@@ -160,6 +160,11 @@ double minimum, maximum;
 
   }
 
+  if (ferror(fp)){
+    printf("unable to read table %s\n", fname);
+    exit(FAILURE);
+  }
+
   table.nrow = row;
   fclose(fp);
 
diff --git a/src/modules/lower-level/aod-ll.c b/src/modules/lower-level/aod-ll.c
index f6d3702..a2d6fdf 100755
--- a/src/modules/lower-level/aod-ll.c
+++ b/src/modules/lower-level/aod-ll.c
@@ -121,6 +121,9 @@ float *aod_lut = NULL;
 
   }
 
+  if (ferror(fp)){
+    printf("Unable to read aod file!\n"); fclose(fp); return NULL;}
+
   fclose(fp);
 
   // AOD derived from LUT
diff --git a/src/modules/lower-level/gas-ll.c b/src/modules/lower-level/gas-ll.c
index 4cd7bc6..d64bc70 100755
--- a/src/modules/lower-level/gas-ll.c
+++ b/src/modules/lower-level/gas-ll.c
@@ -719,6 +719,9 @@ int year, month, day;
 
         }
 
+        if (ferror(fp)){
+          printf("Unable to read LUT. "); fclose(fp); return -1;}
+
         fclose(fp);
 
       }
diff --git a/src/modules/lower-level/meta-ll.c b/src/modules/lower-level/meta-ll.c
index d0610a3..bc5d665 100755
--- a/src/modules/lower-level/meta-ll.c
+++ b/src/modules/lower-level/meta-ll.c
@@ -559,6 +559,9 @@ GDALDatasetH fp_;
 
   }
 
+  if (ferror(fp)){
+    printf("Unable to read Landsat metadata (MTL file)! "); fclose(fp); return FAILURE;}
+
   fclose(fp);
 
 
@@ -923,6 +926,9 @@ int svgrid = 5000;
 
   }
 
+  if (ferror(fp)){
+    printf("Unable to read S2 metadata file. "); fclose(fp); return FAILURE;}
+
   fclose(fp);
 
 
@@ -1053,6 +1059,9 @@ int svgrid = 5000;
 
   }
 
+  if (ferror(fp)){
+    printf("Unable to read metadata file. "); fclose(fp); return FAILURE;}
+
   fclose(fp);
 
 
-- 
2.43.0


From 74873f2e80d9388bbbfd8e7ce02b63eee4ea3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:25 +0000
Subject: [PATCH 24/40] fix: synthetic mixing does not stop on rounding of
 random fractions

The fractions of a mixture were required to sum to exactly one. Depending on
the random numbers drawn, rounding made force-synthmix abort.
---
 python/force-synthmix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/force-synthmix.py b/python/force-synthmix.py
index b361dca..c47bc01 100755
--- a/python/force-synthmix.py
+++ b/python/force-synthmix.py
@@ -106,7 +106,7 @@ def synthMixCore(
                 fraction = np.random.random() * (1. - sum(drawnFractions))
             drawnFractions.append(fraction)
         drawnFractions.append(1. - sum(drawnFractions))
-        assert sum(drawnFractions) == 1.
+        assert abs(sum(drawnFractions) - 1.) < 1e-9
 
         # mix
         mixedProfile = list(np.sum(features[drawnIndices] * np.reshape(drawnFractions, (-1, 1)), axis=0))
-- 
2.43.0


From fee2215cdf4fa8b415f23c17a2235bda6f5c377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:25 +0000
Subject: [PATCH 25/40] fix: stratified sampling draws the requested sample
 size

Pixels were preselected with twice the required probability and then thinned
out. Depending on the random numbers, fewer pixels than requested were drawn,
in particular for classes with few samples. Selection sampling yields the exact
size for every sequence of random numbers.
---
 src/main/aux-level/force-stratified-sample.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/main/aux-level/force-stratified-sample.c b/src/main/aux-level/force-stratified-sample.c
index 46f1901..eb17426 100644
--- a/src/main/aux-level/force-stratified-sample.c
+++ b/src/main/aux-level/force-stratified-sample.c
@@ -190,13 +190,13 @@ double geotran[6];
 int offset = SHRT_MAX+1;
 int length = USHRT_MAX+1;
 double **dictionary = NULL;
-enum { _DICT_CLASS_, _DICT_SIZE_, _DICT_PROBABILITY_, _DICT_COUNT_, _DICT_LENGTH_ };
+enum { _DICT_CLASS_, _DICT_SIZE_, _DICT_PROBABILITY_, _DICT_COUNT_, _DICT_REMAINING_, _DICT_LENGTH_ };
 
 table_t sample;
 int count = 0;
 enum { _SAMPLE_CLASS_, _SAMPLE_X_, _SAMPLE_Y_, _SAMPLE_PROBABILITY_, _SAMPLE_LENGTH_ };
 
-double probability;
+double probability, missing, remaining;
 
 
 int class_ID, size_target, size_sampled;
@@ -237,7 +237,8 @@ OGRGeometryH point;
   for (row=0; row<sample_size.nrow; row++){
     dictionary[(int)sample_size.data[row][col_class] + offset][_DICT_CLASS_] = sample_size.data[row][col_class];
     dictionary[(int)sample_size.data[row][col_class] + offset][_DICT_SIZE_] = sample_size.data[row][col_size];
-    dictionary[(int)sample_size.data[row][col_class] + offset][_DICT_PROBABILITY_] = sample_size.data[row][col_size] / sample_size.data[row][col_count] * 2;
+    dictionary[(int)sample_size.data[row][col_class] + offset][_DICT_PROBABILITY_] = sample_size.data[row][col_size] / sample_size.data[row][col_count];
+    dictionary[(int)sample_size.data[row][col_class] + offset][_DICT_REMAINING_] = sample_size.data[row][col_count];
   }
 
   #ifdef FORCE_DEBUG
@@ -292,9 +293,14 @@ OGRGeometryH point;
 
       if (line[j] == nodata) continue;
 
-      probability = (double)rand()/(double)RAND_MAX;
+      probability = (double)rand()/((double)RAND_MAX+1.0);
 
-      if (dictionary[line[j] + offset][_DICT_PROBABILITY_] >= probability){
+      // selection sampling: draw each pixel with the ratio of what is still
+      // requested to what is still to come, this yields the exact sample size
+      missing   = dictionary[line[j] + offset][_DICT_SIZE_] - dictionary[line[j] + offset][_DICT_COUNT_];
+      remaining = dictionary[line[j] + offset][_DICT_REMAINING_]--;
+
+      if (missing > 0 && remaining * probability < missing){
         dictionary[line[j] + offset][_DICT_COUNT_]++;
         //printf("%d samples pre-selected (row %d, col %d)\n", count, i, j);
 
-- 
2.43.0


From adbefb0693a1028500ceba248794acaec3ec7387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:40 +0000
Subject: [PATCH 26/40] fix: read data cube definitions reliably

The projection was cut at its first blank when the definition was read, which
made tools fail that transform coordinates. If the definition could not be read,
it was taken for one in the deprecated format on second try, with a wrong grid.
---
 src/modules/cross-level/cube-cl.c | 3 +++
 src/modules/cross-level/read-cl.c | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index b9b1d0b..0bec210 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -322,6 +322,9 @@ char tags_output[7][NPOW_10] = {
     if (fgets(buffer, NPOW_10, fp) == NULL){
       printf("Unable to read line %d. ", line);
       exit(FAILURE);
+    } else if (strncmp(buffer, "PROJECTION = ", 13) == 0){
+      printf("Unable to read %s. ", fname);
+      exit(FAILURE);
     } else {
       buffer[strcspn(buffer, "\r\n#")] = 0;
       copy_string(tagval[line][_TV_TAG_], NPOW_10, tags_output[line]);
diff --git a/src/modules/cross-level/read-cl.c b/src/modules/cross-level/read-cl.c
index 4a9b637..f27fe79 100755
--- a/src/modules/cross-level/read-cl.c
+++ b/src/modules/cross-level/read-cl.c
@@ -41,6 +41,7 @@ const char *separator = " =";
 char ***tagval = NULL;
 int n = 0;
 int n_buf = 1;
+int k;
 
 
 
@@ -58,6 +59,7 @@ int n_buf = 1;
   while (fgets(buffer, NPOW_16, fp) != NULL){
 
     buffer[strcspn(buffer, "\r\n")] = 0;
+    for (k=strlen(buffer); k>0 && buffer[k-1] == ' '; k--) buffer[k-1] = 0;
 
     char *saveptr = NULL;
     if ((ptr = strtok_r(buffer, separator, &saveptr)) == NULL){
@@ -69,7 +71,10 @@ int n_buf = 1;
       copy_string(tagval[n][_TV_TAG_], NPOW_10, ptr);
     }
 
-    if ((ptr = strtok_r(NULL, separator, &saveptr)) == NULL){
+    // the value is the rest of the line, it may contain blanks
+    if ((ptr = strtok_r(NULL, "", &saveptr)) != NULL) ptr += strspn(ptr, separator);
+
+    if (ptr == NULL || *ptr == '\0'){
       printf("could not read tag/value pair from:\n  %s\n", fname);
       free_3D((void***)tagval, n_buf, _TV_LENGTH_);
       fclose(fp);
-- 
2.43.0


From d59adaa856cae6975ef0b94d31643e8a3301be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:25 +0000
Subject: [PATCH 27/40] fix: auxiliary tools report results that could not be
 written

Stacking, metadata copies, vector grids, stratified samples, inflated quality
layers, parameter skeletons, class tables and trained models were reported as
written even if the file system had refused them.
---
 src/main/aux-level/force-mdcp.c              |  4 ++
 src/main/aux-level/force-parameter.c         |  7 +++-
 src/main/aux-level/force-stack.c             |  3 ++
 src/main/aux-level/force-stratified-sample.c |  3 ++
 src/main/aux-level/force-tabulate-grid.c     |  3 ++
 src/main/aux-level/force-train.cpp           |  6 ++-
 src/main/higher-level/force-qai-inflate.c    |  3 +-
 src/modules/aux-level/train-aux.cpp          | 39 +++++++++++++++++++-
 src/modules/cross-level/table-cl.c           |  7 +++-
 9 files changed, 69 insertions(+), 6 deletions(-)

diff --git a/src/main/aux-level/force-mdcp.c b/src/main/aux-level/force-mdcp.c
index 7909f52..8796524 100755
--- a/src/main/aux-level/force-mdcp.c
+++ b/src/main/aux-level/force-mdcp.c
@@ -173,7 +173,11 @@ const char *bname = NULL;
   }
 
   GDALClose(src);
+
+  CPLErrorReset();
   GDALClose(dst);
+  if (CPLGetLastErrorType() >= CE_Failure){
+    printf("unable to write %s\n\n", args.fdst); return FAILURE;}
 
   GDALDestroy();
 
diff --git a/src/main/aux-level/force-parameter.c b/src/main/aux-level/force-parameter.c
index 7426f55..fd00493 100755
--- a/src/main/aux-level/force-parameter.c
+++ b/src/main/aux-level/force-parameter.c
@@ -204,6 +204,7 @@ int opt;
 int main( int argc, char *argv[] ){
 args_t args;
 FILE *fp;
+int error;
 
 
   parse_args(argc, argv, &args);
@@ -325,7 +326,11 @@ FILE *fp;
   
   fprintf(fp, "\n++PARAM_%s_END++\n", args.module_tag);
 
-  fclose(fp);
+  error = ferror(fp);
+  if (fclose(fp) != 0 || error){
+    fprintf(stderr, "Unable to write %s\n", args.fname);
+    return FAILURE;
+  }
 
   
   printf("An empty parameter file skeleton was written to\n  %s\n", args.fname);
diff --git a/src/main/aux-level/force-stack.c b/src/main/aux-level/force-stack.c
index 114b742..df531e0 100755
--- a/src/main/aux-level/force-stack.c
+++ b/src/main/aux-level/force-stack.c
@@ -330,7 +330,10 @@ enum { _BYFILE_, _BYBAND_, _INTERLEN_ };
 
   }
 
+  CPLErrorReset();
   GDALClose(dst);
+  if (CPLGetLastErrorType() >= CE_Failure){
+    printf("Error writing file %s\n\n", args.fdst); return FAILURE;}
 
   free((void*)inp);
   free((void*)out);
diff --git a/src/main/aux-level/force-stratified-sample.c b/src/main/aux-level/force-stratified-sample.c
index eb17426..7683635 100644
--- a/src/main/aux-level/force-stratified-sample.c
+++ b/src/main/aux-level/force-stratified-sample.c
@@ -441,7 +441,10 @@ OGRGeometryH point;
 
   }
 
+  CPLErrorReset();
   OGR_DS_Destroy(fp_out);
+  if (CPLGetLastErrorType() >= CE_Failure){
+    printf("Error writing output file.\n"); return FAILURE;}
 
 
   free_table(&sample);
diff --git a/src/main/aux-level/force-tabulate-grid.c b/src/main/aux-level/force-tabulate-grid.c
index f970479..bb740f2 100755
--- a/src/main/aux-level/force-tabulate-grid.c
+++ b/src/main/aux-level/force-tabulate-grid.c
@@ -243,6 +243,7 @@ cube_t *cube = NULL;
 
 
   // create file
+  CPLErrorReset();
   if ((fp = OGR_Dr_CreateDataSource(driver, args.fname, NULL)) == NULL){
     printf("Error creating output file.\n"); return FAILURE;}
     
@@ -324,6 +325,8 @@ cube_t *cube = NULL;
 
   //GDALClose(fp);
   OGR_DS_Destroy(fp);
+  if (CPLGetLastErrorType() >= CE_Failure){
+    printf("Error writing output file.\n"); return FAILURE;}
 
   GDALDestroy();
 
diff --git a/src/main/aux-level/force-train.cpp b/src/main/aux-level/force-train.cpp
index 036e6de..ef32f5c 100755
--- a/src/main/aux-level/force-train.cpp
+++ b/src/main/aux-level/force-train.cpp
@@ -134,6 +134,7 @@ float  *r_response_val  = NULL;
 int    *c_response_val  = NULL;
 bool    *is_train  = NULL;
 FILE   *flog = NULL;
+int     error;
 
 Ptr<StatModel> model;
 Ptr<TrainData> TrainData;
@@ -308,7 +309,10 @@ time_t TIME;
 
   fproctime_print(flog, "\nTraining", TIME);
   
-  fclose(flog);
+  error = ferror(flog);
+  if (fclose(flog) != 0 || error){
+    printf("Unable to write logfile!\n"); 
+    return FAILURE;}
 
 
   return SUCCESS;
diff --git a/src/main/higher-level/force-qai-inflate.c b/src/main/higher-level/force-qai-inflate.c
index a7158f7..d5beb24 100755
--- a/src/main/higher-level/force-qai-inflate.c
+++ b/src/main/higher-level/force-qai-inflate.c
@@ -219,7 +219,8 @@ small **qim_ = NULL;
   }
 
 
-  write_brick(QIM);
+  if (write_brick(QIM) != SUCCESS){
+    printf("Error writing QIM product %s\n", oname); return FAILURE;}
 
   free_brick(QAI);
   free_brick(QIM);
diff --git a/src/modules/aux-level/train-aux.cpp b/src/modules/aux-level/train-aux.cpp
index 45a2e8f..1612190 100755
--- a/src/modules/aux-level/train-aux.cpp
+++ b/src/modules/aux-level/train-aux.cpp
@@ -28,6 +28,41 @@ This file contains functions for training machine learning models
 #include "train-aux.h"
 
 
+/** This function saves a model. Writing errors are not reported by OpenCV,
++++ thus the file is written here. Exits with failure if not possible.
+--- model:   Machine learning model
+--- fname:   Filename
++++ Return:  void
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+void save_model(Ptr<StatModel> model, char *fname){
+FileStorage fs(fname, FileStorage::WRITE | FileStorage::MEMORY);
+FILE *fp = NULL;
+int error;
+
+
+  fs << model->getDefaultName() << "{";
+  model->write(fs);
+  fs << "}";
+
+  String text = fs.releaseAndGetString();
+
+  if ((fp = fopen(fname, "w")) == NULL){
+    printf("Unable to open model file!\n");
+    exit(FAILURE);
+  }
+
+  fwrite(text.c_str(), 1, text.length(), fp);
+
+  error = ferror(fp);
+  if (fclose(fp) != 0 || error){
+    printf("Unable to write model file!\n");
+    exit(FAILURE);
+  }
+
+  return;
+}
+
+
 /** This function trains a Support Vector Machine model
 --- TrainData: training data
 --- train:     train parameters
@@ -109,7 +144,7 @@ int i;
   }
   fprintf(fp, "____________________________________________________________________\n");
 
-  svm->save(train->f_model);
+  save_model(svm, train->f_model);
 
   return svm;
 }
@@ -223,7 +258,7 @@ int n_feature;
 
   }
   
-  rf->save(train->f_model);
+  save_model(rf, train->f_model);
 
   return rf;
 }
diff --git a/src/modules/cross-level/table-cl.c b/src/modules/cross-level/table-cl.c
index 88a8c7b..d8c5836 100755
--- a/src/modules/cross-level/table-cl.c
+++ b/src/modules/cross-level/table-cl.c
@@ -415,6 +415,7 @@ int width, *max_width = NULL;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void write_table(table_t *table, char *fname, const char *separator, bool skip_rows){
 int row, col;
+int error;
 FILE *fp = NULL;
 
 
@@ -444,7 +445,11 @@ FILE *fp = NULL;
   }
 
 
-  fclose(fp);
+  error = ferror(fp);
+  if (fclose(fp) != 0 || error){
+    printf("unable to write file %s\n", fname); 
+    exit(FAILURE);
+  }
 
   return;
 }
-- 
2.43.0


From 97a53796be64808ec11dcb5bdf5eff19c5526394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:50 +0000
Subject: [PATCH 28/40] fix: cube and mask tools understand the current data
 cube definition

The definition holds tags and values since it has been revised, but the shell
tools still took each line as the plain value.
---
 bash/force-cube.sh         | 18 ++++++++++++------
 bash/force-procmask.sh     |  9 ++++++---
 misc/force-bash-library.sh | 10 ++++++++++
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 171fc19..5c74459 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -112,7 +112,7 @@ function cubethis(){
   LRY=$(echo "$ORIGY" "$y" "$TILESIZE" | awk '{printf "%f",  $1 - ($2+1)*$3}')
   TILE=$(printf "X%04d_Y%04d" "$x" "$y")
   XBLOCK=$(echo "$TILESIZE"  "$RES" | awk '{print int($1/$2)}')
-  YBLOCK=$(echo "$CHUNKSIZE" "$RES" | awk '{print int($1/$2)}')
+  YBLOCK=$(echo "$CHUNKSIZE" "$RES" | awk '{n=int($1/$2); print (n>1)?n:1}')
   debug "$ULX $ULY $LRX $LRY $TILE $XBLOCK $YBLOCK"
 
   mkdir -p "$DOUT/$TILE"
@@ -322,11 +322,17 @@ for i in "$@"; do
   debug "tempfile: $FTMP"
 
   # datacube parameters
-  WKT=$(head -n 1 "$DCDEF")
-  ORIGX=$(head -n 4 "$DCDEF"  | tail -1 )
-  ORIGY=$(head -n 5 "$DCDEF" | tail -1 )
-  TILESIZE=$(head -n 6 "$DCDEF" | tail -1 )
-  CHUNKSIZE=$(head -n 7 "$DCDEF" | tail -1 )
+  WKT=$(datacube_parameter "$DCDEF" PROJECTION 1)
+  ORIGX=$(datacube_parameter "$DCDEF" ORIGIN_MAP_X 4)
+  ORIGY=$(datacube_parameter "$DCDEF" ORIGIN_MAP_Y 5)
+  TILESIZE=$(datacube_parameter "$DCDEF" TILE_SIZE_X 6)
+  CHUNKSIZE=$(datacube_parameter "$DCDEF" CHUNK_SIZE 7)
+  if [ -z "$WKT" ] || [ -z "$ORIGX" ] || [ -z "$ORIGY" ] || [ -z "$TILESIZE" ]; then
+    echoerr "$DCDEF could not be read, exiting."; exit 1;
+  fi
+  if [ -z "$CHUNKSIZE" ]; then
+    CHUNKSIZE=$(echo "$TILESIZE" | awk '{printf "%f", $1/10}')
+  fi
   debug "$WKT $ORIGX $ORIGY $TILESIZE $CHUNKSIZE"
 
   # nodata value
diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index 7cbc841..87226e0 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -201,12 +201,15 @@ if [ $(cat "$TEMP" | wc -l) -lt 1 ]; then
 fi
 
 # tile /chunk size
-TILESIZE=$(head -n 6 $DOUT/datacube-definition.prj | tail -1 )
-CHUNKSIZE=$(head -n 7 $DOUT/datacube-definition.prj | tail -1 )
+TILESIZE=$(datacube_parameter "$DOUT/datacube-definition.prj" TILE_SIZE_X 6)
+CHUNKSIZE=$(datacube_parameter "$DOUT/datacube-definition.prj" CHUNK_SIZE 7)
+if [ -z "$CHUNKSIZE" ]; then
+  CHUNKSIZE=$(echo "$TILESIZE" | awk '{printf "%f", $1/10}')
+fi
 
 # block size
 XBLOCK=$(echo $TILESIZE  $RES | awk '{print int($1/$2)}')
-YBLOCK=$(echo $CHUNKSIZE $RES | awk '{print int($1/$2)}')
+YBLOCK=$(echo $CHUNKSIZE $RES | awk '{n=int($1/$2); print (n>1)?n:1}')
 
 export DOUT=$DOUT
 export FOUT=$FOUT
diff --git a/misc/force-bash-library.sh b/misc/force-bash-library.sh
index 3c45f5d..0d58c13 100644
--- a/misc/force-bash-library.sh
+++ b/misc/force-bash-library.sh
@@ -160,3 +160,13 @@ is_integer(){
   if [[ "$1" =~ ^-?[0-9]+$ ]]; then return 0; else return 1; fi
 }
 export -f is_integer
+
+# read a parameter of a datacube definition; file, tag, and line in the deprecated format
+datacube_parameter(){
+  if grep -q '^PROJECTION = ' "$1"; then
+    sed -n "s/^$2 = //p" "$1"
+  else
+    sed -n "$3p" "$1"
+  fi
+}
+export -f datacube_parameter
-- 
2.43.0


From 1d393109c72699aa9937062ad6928bc05c38a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:13 +0000
Subject: [PATCH 29/40] fix: cubing reports failed tiles and does not lose
 existing images

Images of a tile were moved away while new data were merged into them, so that
a failure or an interruption removed them from the data cube. Tiles that
failed went unnoticed. The layer name of the first vector file was used for
all other files.
---
 bash/force-cube.sh | 81 +++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 5c74459..8337e45 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -117,6 +117,9 @@ function cubethis(){
 
   mkdir -p "$DOUT/$TILE"
   FOUT="$DOUT/$TILE/$COUT.tif"
+  FNEW="$DOUT/$TILE/${COUT}_TEMP1.tif"
+  FMERGE="$DOUT/$TILE/${COUT}_TEMP2.tif"
+  rm -f "$FNEW" "$FMERGE"
   debug "$FOUT"
 
   if [ "$RASTER" == "false" ]; then
@@ -130,64 +133,53 @@ function cubethis(){
     $RASTERIZE_EXE "${BURNOPT[@]}" -a_nodata "$ONODATA" -ot "$DATATYPE" -of GTiff \
       -co COMPRESS=LZW -co PREDICTOR=2 -co NUM_THREADS=ALL_CPUS \
       -co BIGTIFF=YES -co BLOCKXSIZE="$XBLOCK" -co BLOCKYSIZE="$YBLOCK" \
-      -init "$ONODATA" -tr "$RES" "$RES" -te "$ULX" "$LRY" "$LRX" "$ULY" "$FINP" "$FOUT"
+      -init "$ONODATA" -tr "$RES" "$RES" -te "$ULX" "$LRY" "$LRX" "$ULY" "$FINP" "$FNEW"
     if [ "$?" -ne 0 ]; then
-      echoerr "rasterizing failed."; exit 1
-    fi
-
-    VALID=$($RASTER_INFO_EXE -stats "$FOUT" 2>/dev/null | grep STATISTICS_VALID_PERCENT | sed 's/ //g; s/[=,]/ /g' | cut -d ' ' -f2 | awk '{sum +=$1} END {print sum != 0}' )
-    rm "$FOUT.aux.xml"
-    debug "valid: $VALID"
-
-    if [ "$VALID" -eq 0 ]; then
-      rm "$FOUT"
-      exit 1
+      echoerr "rasterizing failed."; rm -f "$FNEW"; exit 1
     fi
 
   else
 
-    if [ -r "$FOUT" ]; then
-      debug "exists"
-      EXIST="true"
-      FOUT="$DOUT/$TILE/$COUT'_TEMP2.tif'"
-    else
-      EXIST="false"
-    fi
-
     $RASTER_WARP_EXE -q -srcnodata "$INODATA" -dstnodata "$ONODATA" -ot "$DATATYPE" -of GTiff \
       -co INTERLEAVE=BAND -co COMPRESS=LZW -co PREDICTOR=2 -co NUM_THREADS=ALL_CPUS \
       -co BIGTIFF=YES -co BLOCKXSIZE="$XBLOCK" -co BLOCKYSIZE="$YBLOCK" \
-      -t_srs "$WKT" -te "$ULX" "$LRY" "$LRX" "$ULY" -tr "$RES" "$RES" -r "$RESAMPLE" "$FINP" "$FOUT"
+      -t_srs "$WKT" -te "$ULX" "$LRY" "$LRX" "$ULY" -tr "$RES" "$RES" -r "$RESAMPLE" "$FINP" "$FNEW"
     if [ "$?" -ne 0 ]; then
-      echoerr "warping failed."; exit 1
+      echoerr "warping failed."; rm -f "$FNEW"; exit 1
     fi
 
-    VALID=$($RASTER_INFO_EXE -stats "$FOUT" 2>/dev/null | grep STATISTICS_VALID_PERCENT | sed 's/ //g; s/[=,]/ /g' | cut -d ' ' -f2 | awk '{sum +=$1} END {print sum != 0}' )
-    rm "$FOUT.aux.xml"
-    debug "valid: $VALID"
-
-    if [ "$VALID" -eq 0 ]; then
-      rm "$FOUT"
-      exit 1
-    fi
+  fi
 
+  INFO=$($RASTER_INFO_EXE -stats "$FNEW" 2>/dev/null)
+  if [ "$?" -ne 0 ]; then
+    echoerr "checking for valid data failed."; rm -f "$FNEW"; exit 1
+  fi
+  VALID=$(echo "$INFO" | grep STATISTICS_VALID_PERCENT | sed 's/ //g; s/[=,]/ /g' | cut -d ' ' -f2 | awk '{sum +=$1} END {print sum != 0}' )
+  rm -f "$FNEW.aux.xml"
+  debug "valid: $VALID"
+
+  # nothing to do in this tile
+  if [ "$VALID" -eq 0 ]; then
+    rm "$FNEW"
+    exit 0
+  fi
 
-    if [ "$EXIST" == "true" ]; then
+  # only complete images replace existing ones
+  if [ "$RASTER" == "true" ] && [ -r "$FOUT" ]; then
       debug "building mosaic"
-      mv "$DOUT/$TILE/$COUT.tif" "$DOUT/$TILE/$COUT'_TEMP1.tif'"
-      $RASTER_MERGE_EXE -q -o "$DOUT/$TILE/$COUT.tif" -ot "$DATATYPE" -of GTiff \
+      $RASTER_MERGE_EXE -q -o "$FMERGE" -ot "$DATATYPE" -of GTiff \
         -n "$ONODATA" -a_nodata "$ONODATA" -init "$ONODATA" \
         -co INTERLEAVE=BAND -co COMPRESS=LZW -co PREDICTOR=2 -co NUM_THREADS=ALL_CPUS \
         -co BIGTIFF=YES -co BLOCKXSIZE="$XBLOCK" -co BLOCKYSIZE="$YBLOCK" \
-        "$DOUT/$TILE/$COUT'_TEMP1.tif'" "$DOUT/$TILE/$COUT'_TEMP2.tif'"
+        "$FOUT" "$FNEW"
       if [ "$?" -ne 0 ]; then
-        echoerr "merging failed."; exit 1
+        echoerr "merging failed."; rm -f "$FNEW" "$FMERGE"; exit 1
       fi
-      rm "$DOUT/$TILE/$COUT'_TEMP1.tif'" "$DOUT/$TILE/$COUT'_TEMP2.tif'"
-    fi
-
+      mv "$FMERGE" "$FNEW" || exit 1
   fi
 
+  mv "$FNEW" "$FOUT" || exit 1
+
 }
 export -f cubethis
 
@@ -205,7 +197,7 @@ NJOB="100%"
 ATTRIBUTE="DEFAULT"
 DATATYPE="Byte"
 ONODATA=255
-LAYER="DEFAULT"
+NAME="DEFAULT"
 
 while :; do
   case "$1" in
@@ -215,7 +207,7 @@ while :; do
     -r|--resample) RESAMPLE="$2"; shift ;;
     -s|--resolution) RES="$2"; shift ;;
     -a|attribute) ATTRIBUTE="$2"; shift;;
-    -l|layer) LAYER="$2"; shift;;
+    -l|layer) NAME="$2"; shift;;
     -n|nodata) ONODATA="$2"; shift;;
     -t|datatype) DATATYPE="$2"; shift;;
     -o|--output) DOUT="$2"; shift ;;
@@ -277,6 +269,7 @@ fi
 
 
 # main thing -----------------------------------------------------------------------------
+STATUS=0
 for i in "$@"; do
 
   FINP=$(readlink -f "$i") # absolute file path
@@ -290,8 +283,10 @@ for i in "$@"; do
     COUT="$BASE" # corename from user parameters
   fi
 
-  if [ "$LAYER" == "DEFAULT" ]; then
+  if [ "$NAME" == "DEFAULT" ]; then
     LAYER="$CINP"  # layername from input file
+  else
+    LAYER="$NAME"  # layername from user parameters
   fi
 
   debug "input  file:      $FINP"
@@ -374,6 +369,7 @@ for i in "$@"; do
     YMIN=$($RASTER_INFO_EXE "$FTMP" | grep 'Lower Right' | cut -d "(" -f 2 | cut -d ")" -f 1 | sed 's/[ ]//g' | cut -d ',' -f 2)
   else
     FTMP="$FTMP.gpkg"
+    rm -f "$FTMP"
     debug "tempfile: $FTMP"
     $VECTOR_WARP_EXE -f 'GPKG' -t_srs "$WKT" "$FTMP" "$FINP" &> /dev/null
     if [ "$?" -ne 0 ]; then
@@ -420,6 +416,9 @@ for i in "$@"; do
   export WKT ORIGX ORIGY TILESIZE CHUNKSIZE RES 
   export FINP DOUT COUT INODATA ONODATA RESAMPLE RASTER DATATYPE ATTRIBUTE
   $PARALLEL_EXE -j "$NJOB" --memsuspend "$MEMORY" cubethis {1} {2} ::: $(seq "$TXMIN" "$TXMAX") ::: $(seq "$TYMIN" "$TYMAX")
+  if [ "$?" -ne 0 ]; then
+    echoerr "cubing $FINP failed in some tiles."; STATUS=1
+  fi
 
   # silly workaround to make my linter work :/
   cubethis "NULL" "NULL"
@@ -432,4 +431,4 @@ for i in "$@"; do
 
 done
 
-exit 0
+exit $STATUS
-- 
2.43.0


From d7a1d9783e1d4dae8124a16ada59b7e9e125db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:31 +0000
Subject: [PATCH 30/40] fix: mosaicking uses exactly the chips of a product and
 reports failures

Chips whose name merely contains the name of another product were mixed into
its mosaic. Lists left by an interrupted run were used again. Chips that could
not be read were left out without notice.
---
 bash/force-mosaic.sh | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index cc943d6..7e8e0ff 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -80,7 +80,7 @@ function mosaic_this(){
   debug "output name: $ONAME"
 
   # file list
-  grep "$prd" force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
+  awk -F '/' -v prd="$prd" '$NF == prd' force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
 
   # file list exists?
   if [ ! -f "$LIST" ]; then
@@ -103,18 +103,30 @@ function mosaic_this(){
     debug "Nodata value: $NODATA"
 
     #build VRT
+    rm -f "$ONAME"
     $VRTBUILD_EXE -q -srcnodata "$NODATA" -vrtnodata "$NODATA" -input_file_list "$LIST" "$ONAME"
+    if [ $? -ne 0 ]; then
+      echoerr "building $ONAME failed."; rm -f "$ONAME"; exit 1
+    fi
+
+    # chips that could not be read are left out
+    NVRT=$(grep -o '<SourceFilename[^>]*>[^<]*' "$ONAME" | sort -u | wc -l)
+    if [ "$NVRT" -ne "$N" ]; then
+      echoerr "only $NVRT chips in $ONAME."; rm -f "$ONAME"; exit 1
+    fi
 
     # set vrt to relative paths
-    sed -i.tmp 's/relativeToVRT="0"/relativeToVRT="1"/g' "$ONAME"
+    sed -i.tmp 's/relativeToVRT="0"/relativeToVRT="1"/g' "$ONAME" || exit 1
     chmod --reference "$ONAME".tmp "$ONAME"
     rm "$ONAME".tmp
 
     # copy metadata
-    $MDCOPY_EXE "$FIRST" "$ONAME"
+    if ! $MDCOPY_EXE "$FIRST" "$ONAME"; then
+      echoerr "copying metadata to $ONAME failed."; exit 1
+    fi
 
   else
-    echo "no chip found."
+    echoerr "no chip found."; exit 1
   fi
 
   # delete list
@@ -218,9 +230,16 @@ if [ -z "$TILES" ]; then
 fi
 
 
+# remove leftovers of an interrupted run
+rm -f force-mosaic_files-*.txt force-mosaic_products-*.txt
+
 # make file list for each tile
 export EXTENSION
-echo "$TILES" | parallel -j "$CPU" "ls {}/*.$EXTENSION > force-mosaic_files-{#}.txt 2> /dev/null"
+echo "$TILES" | parallel -j "$CPU" "set -o pipefail; find -L {} -maxdepth 1 -name '*.$EXTENSION' ! -name '.*' | sort > force-mosaic_files-{#}.txt"
+if [ $? -ne 0 ]; then
+  echoerr "could not create file listing."
+  exit 1
+fi
 
 # delete all empty files
 find . -type f -name 'force-mosaic_files-*.txt' -empty -delete
@@ -234,18 +253,23 @@ fi
 
 
 # all files in one list
-cat force-mosaic_files-*.txt > force-mosaic_all-files.txt
+cat force-mosaic_files-*.txt > force-mosaic_all-files.txt || exit 1
 
 # available products for each tile
-ls force-mosaic_files-*.txt | parallel -j "$CPU" "cat {} | xargs basename -a | sort | uniq > force-mosaic_products-{#}.txt"
+ls force-mosaic_files-*.txt | parallel -j "$CPU" "set -o pipefail; cat {} | xargs basename -a | sort | uniq > force-mosaic_products-{#}.txt"
+if [ $? -ne 0 ]; then
+  echoerr "could not create product listing."
+  exit 1
+fi
 
 # all products in one list
-cat force-mosaic_products-*.txt | sort | uniq > force-mosaic_all-products.txt
+cat force-mosaic_products-*.txt | sort | uniq > force-mosaic_all-products.txt || exit 1
 NPROD=$(wc -l force-mosaic_all-products.txt | cut -d " " -f 1)
 
 echo "mosaicking $NPROD products:"
 #parallel -a force-mosaic_all-products.txt -j "$CPU" echo        {#} {}
 parallel -a force-mosaic_all-products.txt -j "$CPU" mosaic_this {#} {}
+STATUS=$?
 
 rm force-mosaic_files-*.txt
 rm force-mosaic_all-files.txt
@@ -257,4 +281,8 @@ mosaic_this 0 0
 
 cd "$NOW" || exit 1
 
+if [ $STATUS -ne 0 ]; then
+  echoerr "some products could not be mosaicked."; exit 1
+fi
+
 exit 0
-- 
2.43.0


From c9d72b818d0bec0e7c7bf09612af6e5b789f6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:31 +0000
Subject: [PATCH 31/40] fix: virtual data cubes and pyramids can be repeated
 after an interruption

A file that was incomplete was taken for an existing result. Failures went
unnoticed. The overwrite option swallowed the option that follows it.
---
 bash/force-pyramid.sh          |  6 +++++-
 bash/force-virtual-datacube.sh | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/bash/force-pyramid.sh b/bash/force-pyramid.sh
index df5cfc9..4c5f259 100755
--- a/bash/force-pyramid.sh
+++ b/bash/force-pyramid.sh
@@ -124,7 +124,11 @@ pyramid(){
   fi
 
   echo "computing pyramids for $BINP"
-  $PYRAMID_EXE -ro --config COMPRESS_OVERVIEW DEFLATE --config BIGTIFF_OVERVIEW YES -r $RESAMPLE $FINP $LEVELS
+  if ! $PYRAMID_EXE -ro --config COMPRESS_OVERVIEW DEFLATE --config BIGTIFF_OVERVIEW YES -r $RESAMPLE $FINP $LEVELS; then
+    # pyramids left by an interrupted run cannot be updated
+    rm -f $FINP.ovr
+    $PYRAMID_EXE -ro --config COMPRESS_OVERVIEW DEFLATE --config BIGTIFF_OVERVIEW YES -r $RESAMPLE $FINP $LEVELS || exit 1
+  fi
 
 }
 export -f pyramid
diff --git a/bash/force-virtual-datacube.sh b/bash/force-virtual-datacube.sh
index 9514936..0674c98 100755
--- a/bash/force-virtual-datacube.sh
+++ b/bash/force-virtual-datacube.sh
@@ -79,7 +79,11 @@ function translate_to_virtual(){
   overwrite="$3"
 
   if [[ "$overwrite" == "TRUE" || ! -f "$outputfile" ]]; then 
-    $TRANSLATE_EXE -f VRT "$inputfile" "$outputfile" >/dev/null
+    # only complete files shall be visible
+    if ! $TRANSLATE_EXE -f VRT "$inputfile" "$outputfile.tmp" >/dev/null; then
+      echoerr "translating $inputfile failed"; rm -f "$outputfile.tmp"; exit 1
+    fi
+    mv "$outputfile.tmp" "$outputfile" || exit 1
   fi
 
 }
@@ -101,7 +105,7 @@ while :; do
     -v|--version) force_version; exit 0;;
     -i|--info) echo "Display the size of your datacube"; exit 0;;
     -p|--pattern) PATTERN="$2"; shift ;;
-    -w|-overwrite) OVERWRITE=TRUE; shift ;;
+    -w|-overwrite) OVERWRITE=TRUE ;;
     -j|--jobs) NJOB="$2"; shift ;;
     
     -- ) shift; break ;;
@@ -155,6 +159,8 @@ debug "DC_DEFINITION_OUTPUT: $DC_DEFINITION_OUTPUT"
 
 # main thing -----------------------------------------------------------------------------
 
+STATUS=0
+
 # walk tiles
 for d in "$DIR_INPUT"/X*; do 
 
@@ -169,7 +175,10 @@ for d in "$DIR_INPUT"/X*; do
   find "$d" -maxdepth 1 -type f -name "$PATTERN" | \
     $PARALLEL_EXE -j "$NJOB" --memsuspend "$MEMORY" \
     translate_to_virtual {} "$DIR_OUTPUT"/"${d#"$DIR_INPUT"}"/{/.}.vrt "$OVERWRITE"
+  if [ $? -ne 0 ]; then
+    echoerr "some images in $d could not be translated"; STATUS=1
+  fi
 
 done
 
-exit 0
+exit $STATUS
-- 
2.43.0


From 71faae3df37428e6c7c77ea5341f524a2febb866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:31 +0000
Subject: [PATCH 32/40] fix: tile extents at the origin and single values of
 magic parameters

Tile number 0 was lost in the suggested range of tiles. A replacement vector
with a single value kept its braces. Failing commands went unnoticed.
---
 bash/force-magic-parameters.sh |  9 +++++----
 bash/force-tile-extent.sh      | 16 ++++++++--------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/bash/force-magic-parameters.sh b/bash/force-magic-parameters.sh
index 6428533..d3657a0 100755
--- a/bash/force-magic-parameters.sh
+++ b/bash/force-magic-parameters.sh
@@ -126,7 +126,8 @@ if [ "$COMB" = "all" ]; then
 
   # combine values
   for k in $KEYS; do
-    VALUES={$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //' | sed 's/ /,/g' )}
+    VALUES=$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //' | sed 's/ /,/g' )
+    if [[ "$VALUES" == *,* ]]; then VALUES="{$VALUES}"; fi
     #echo $VALUES
     combis="$combis%$VALUES"
     #echo $combis
@@ -181,16 +182,16 @@ for comb in $COMBS; do
   FOUT=$DOUT/$CINP"_"$C_NPAR".prm"
 
   # init new par
-  cp $FINP $FOUT
+  cp $FINP $FOUT || exit 1
 
   # remove magic parameter definition
-  sed -i '/^\+/,$!d' $FOUT
+  sed -i '/^\+/,$!d' $FOUT || exit 1
 
   # replace
   n=0
   for k in $KEYS; do
     #echo "replace {%$k%} with ${v[n]}"
-    sed -i "s+{%$k%}+${v[n]}+g" $FOUT
+    sed -i "s+{%$k%}+${v[n]}+g" $FOUT || exit 1
     ((n++))
   done
 
diff --git a/bash/force-tile-extent.sh b/bash/force-tile-extent.sh
index 3581fc8..16e6095 100755
--- a/bash/force-tile-extent.sh
+++ b/bash/force-tile-extent.sh
@@ -108,7 +108,7 @@ debug "allow-list:   $FILE_ALLOW"
 debug "AOI:          $FILE_AOI"
 debug "njobs:        $NJOB"
 
-DIR_ALLOW=$(dirname "FILE_ALLOW")
+DIR_ALLOW=$(dirname "$FILE_ALLOW")
 FILE_CUBE="$DIR_CUBE/datacube-definition.prj"
 
 # checks
@@ -125,10 +125,11 @@ DIR_TMP="$DIR_ALLOW/${BASE%%.*}_TEMP_$TIME"
 debug "DIR_TMP: $DIR_TMP"
 mkdir -p "$DIR_TMP"
 dir_not_writeable "$DIR_TMP" # safety check
-cp "$FILE_CUBE" -t "$DIR_TMP"
+cp "$FILE_CUBE" -t "$DIR_TMP" || exit 1
 
 # generate masks
 $FORCE_CUBE_EXE -o "$DIR_TMP" -b force-extent "$FILE_AOI" &> /dev/null
+STATUS=$?
 
 # go to temporary directory
 DIR_NOW="$PWD"
@@ -137,9 +138,9 @@ cd "$DIR_TMP" || {
   exit 1
 }
 
-if [ $? -ne 0 ]; then
+if [ $STATUS -ne 0 ]; then
   echoerr "force-cube returned an error."
-  echoerr "run '$BINDIR"/"force-cube -j 0 -s 10 -o $TMP -b force-extent $INP' to see where the error occurred."
+  echoerr "run '$FORCE_CUBE_EXE -s 10 -o $DIR_TMP -b force-extent $FILE_AOI' to see where the error occurred."
   exit 1
 fi
 
@@ -160,8 +161,8 @@ for i in "${TILES_MASK[@]}"; do
   X=${i:1:4}
   Y=${i:7:4}
 
-  X=$(echo $X | sed 's/^0*//')
-  Y=$(echo $Y | sed 's/^0*//')
+  X=$(echo $X | sed 's/^0*\([0-9]\)/\1/')
+  Y=$(echo $Y | sed 's/^0*\([0-9]\)/\1/')
 
   is_gt "$X" "$XMAX" && XMAX="$X"
   is_lt "$X" "$XMIN" && XMIN="$X"
@@ -171,8 +172,7 @@ for i in "${TILES_MASK[@]}"; do
 done
 
 # write allow-list
-echo "$NTILES" > "$FILE_ALLOW"
-printf "%s\n" "${TILES_MASK[@]}" >> "$FILE_ALLOW"
+printf "%s\n" "$NTILES" "${TILES_MASK[@]}" > "$FILE_ALLOW" || exit 1
 
 # suggest parameters
 echo ""
-- 
2.43.0


From cc93722088be3c030575f1c16a10167e9d7dd4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:31 +0000
Subject: [PATCH 33/40] fix: processing masks and cubed images are checked
 before they are used

Masks of failed tiles went unnoticed, and incomplete masks of an interrupted
run stayed. Errors while writing do not always show in the exit code of the
programs in use, hence the images are read once. Data without extent led to an
endless list of tiles.
---
 bash/force-cube.sh         | 18 ++++++++++++------
 bash/force-procmask.sh     | 16 +++++++++++++++-
 misc/force-bash-library.sh |  6 ++++++
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 8337e45..3136f0b 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -150,11 +150,12 @@ function cubethis(){
 
   fi
 
-  INFO=$($RASTER_INFO_EXE -stats "$FNEW" 2>/dev/null)
-  if [ "$?" -ne 0 ]; then
-    echoerr "checking for valid data failed."; rm -f "$FNEW"; exit 1
+  # writing errors do not always show in the exit code
+  if ! image_readable "$FNEW"; then
+    echoerr "writing failed."; rm -f "$FNEW"; exit 1
   fi
-  VALID=$(echo "$INFO" | grep STATISTICS_VALID_PERCENT | sed 's/ //g; s/[=,]/ /g' | cut -d ' ' -f2 | awk '{sum +=$1} END {print sum != 0}' )
+
+  VALID=$($RASTER_INFO_EXE -stats "$FNEW" 2>/dev/null | grep STATISTICS_VALID_PERCENT | sed 's/ //g; s/[=,]/ /g' | cut -d ' ' -f2 | awk '{sum +=$1} END {print sum != 0}' )
   rm -f "$FNEW.aux.xml"
   debug "valid: $VALID"
 
@@ -172,7 +173,7 @@ function cubethis(){
         -co INTERLEAVE=BAND -co COMPRESS=LZW -co PREDICTOR=2 -co NUM_THREADS=ALL_CPUS \
         -co BIGTIFF=YES -co BLOCKXSIZE="$XBLOCK" -co BLOCKYSIZE="$YBLOCK" \
         "$FOUT" "$FNEW"
-      if [ "$?" -ne 0 ]; then
+      if [ "$?" -ne 0 ] || ! image_readable "$FMERGE"; then
         echoerr "merging failed."; rm -f "$FNEW" "$FMERGE"; exit 1
       fi
       mv "$FMERGE" "$FNEW" || exit 1
@@ -356,6 +357,7 @@ for i in "$@"; do
   fi
 
   # bounding box
+  rm -f "$FTMP.vrt" "$FTMP.gpkg"
   if [ "$RASTER" == "true" ]; then
     FTMP="$FTMP.vrt"
     debug "tempfile: $FTMP"
@@ -369,7 +371,6 @@ for i in "$@"; do
     YMIN=$($RASTER_INFO_EXE "$FTMP" | grep 'Lower Right' | cut -d "(" -f 2 | cut -d ")" -f 1 | sed 's/[ ]//g' | cut -d ',' -f 2)
   else
     FTMP="$FTMP.gpkg"
-    rm -f "$FTMP"
     debug "tempfile: $FTMP"
     $VECTOR_WARP_EXE -f 'GPKG' -t_srs "$WKT" "$FTMP" "$FINP" &> /dev/null
     if [ "$?" -ne 0 ]; then
@@ -382,6 +383,11 @@ for i in "$@"; do
     FINP="$FTMP"
   fi
   debug "$XMIN $YMAX $XMAX $YMIN"
+  for COORD in "$XMIN" "$YMAX" "$XMAX" "$YMIN"; do
+    if ! [[ "$COORD" =~ ^-?[0-9.]+([eE][-+]?[0-9]+)?$ ]]; then
+      echoerr "could not determine the bounding box of $FINP, exiting."; rm -f "$FTMP"; exit 1;
+    fi
+  done
 
   # 1st tile, and ulx/uly of 1st tile
   TXMIN=$(echo "$XMIN" "$ORIGX" "$TILESIZE" | awk '{f=($1-$2)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index 87226e0..d3b371e 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -86,10 +86,14 @@ function mask(){
  
   mkdir -p $DOUT/$TILE
 
+  # only complete masks shall be visible
+  TEMP=$DOUT/$TILE/temp-force-procmask_$FOUT
+
   gdal_calc.py \
     -A $FILE \
     --A_band=$LAYER \
-    --outfile=$DOUT/$TILE/$FOUT \
+    --outfile=$TEMP \
+    --overwrite \
     --calc=$CALC \
     --NoDataValue=255 \
     --type=Byte \
@@ -101,6 +105,11 @@ function mask(){
     --creation-option="BLOCKXSIZE=$XBLOCK" \
     --creation-option="BLOCKYSIZE=$YBLOCK" \
     --quiet
+  if [ $? -ne 0 ] || ! image_readable $TEMP; then
+    echoerr "computing mask failed for $FILE"; rm -f $TEMP; exit 1
+  fi
+
+  mv $TEMP $DOUT/$TILE/$FOUT || exit 1
 
 }
 export -f mask
@@ -219,9 +228,14 @@ export XBLOCK=$XBLOCK
 export YBLOCK=$YBLOCK
 
 $PARALLEL_EXE -j $NJOB -a $TEMP --eta mask {}
+STATUS=$?
 
 rm $TEMP
 
 cd $PWD
 
+if [ $STATUS -ne 0 ]; then
+  echoerr "some masks could not be computed"; exit 1
+fi
+
 exit 0
diff --git a/misc/force-bash-library.sh b/misc/force-bash-library.sh
index 0d58c13..50cd18f 100644
--- a/misc/force-bash-library.sh
+++ b/misc/force-bash-library.sh
@@ -170,3 +170,9 @@ datacube_parameter(){
   fi
 }
 export -f datacube_parameter
+
+# can all pixels of an image be read?
+image_readable(){
+  info=$(gdalinfo -checksum "$1" 2>&1) && ! echo "$info" | grep -q 'ERROR'
+}
+export -f image_readable
-- 
2.43.0


From cf15b664840d680ecd43a2e6e83103aac4db07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:45 +0000
Subject: [PATCH 34/40] fix: interrupted copies of data cube definitions do not
 block repetition

---
 bash/force-procmask.sh         | 4 +++-
 bash/force-virtual-datacube.sh | 4 +++-
 misc/force-bash-library.sh     | 6 ++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index d3b371e..12c4522 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -180,7 +180,9 @@ if [ -r $DOUT/datacube-definition.prj ]; then
   fi
 else
   echo "copying datacube-definition.prj"
-  cp "$DINP/datacube-definition.prj" "$DOUT/datacube-definition.prj"
+  if ! copy_complete "$DINP/datacube-definition.prj" "$DOUT/datacube-definition.prj"; then
+    echoerr "copying datacube-definition.prj failed."; exit 1
+  fi
 fi
 
 if [ $OBASE == "DEFAULT" ]; then
diff --git a/bash/force-virtual-datacube.sh b/bash/force-virtual-datacube.sh
index 0674c98..67d1d12 100755
--- a/bash/force-virtual-datacube.sh
+++ b/bash/force-virtual-datacube.sh
@@ -151,7 +151,9 @@ if [[ -d "$DIR_OUTPUT" && -f "$DC_DEFINITION_OUTPUT" ]]; then
   fi
 
 else
-  cp "$DC_DEFINITION_INPUT" "$DC_DEFINITION_OUTPUT" 
+  if ! copy_complete "$DC_DEFINITION_INPUT" "$DC_DEFINITION_OUTPUT"; then
+    echoerr "copying $DC_DEFINITION_INPUT failed."; exit 1
+  fi
 fi
 debug "DC_DEFINITION_INPUT: $DC_DEFINITION_INPUT"
 debug "DC_DEFINITION_OUTPUT: $DC_DEFINITION_OUTPUT"
diff --git a/misc/force-bash-library.sh b/misc/force-bash-library.sh
index 50cd18f..73587ad 100644
--- a/misc/force-bash-library.sh
+++ b/misc/force-bash-library.sh
@@ -171,6 +171,12 @@ datacube_parameter(){
 }
 export -f datacube_parameter
 
+# copy a file such that only complete copies are visible
+copy_complete(){
+  cp "$1" "$2.tmp" && mv "$2.tmp" "$2" || { rm -f "$2.tmp"; return 1; }
+}
+export -f copy_complete
+
 # can all pixels of an image be read?
 image_readable(){
   info=$(gdalinfo -checksum "$1" 2>&1) && ! echo "$info" | grep -q 'ERROR'
-- 
2.43.0


From 978b6646afd32526ce650672d717e85b64c699cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:50:38 +0000
Subject: [PATCH 35/40] fix: cubing does not take unreadable statistics for an
 empty tile

---
 bash/force-cube.sh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 3136f0b..1bb9c45 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -155,7 +155,10 @@ function cubethis(){
     echoerr "writing failed."; rm -f "$FNEW"; exit 1
   fi
 
-  VALID=$($RASTER_INFO_EXE -stats "$FNEW" 2>/dev/null | grep STATISTICS_VALID_PERCENT | sed 's/ //g; s/[=,]/ /g' | cut -d ' ' -f2 | awk '{sum +=$1} END {print sum != 0}' )
+  if ! STATS=$($RASTER_INFO_EXE -stats "$FNEW" 2>/dev/null); then
+    echoerr "reading statistics failed."; rm -f "$FNEW"; exit 1
+  fi
+  VALID=$(echo "$STATS" | grep STATISTICS_VALID_PERCENT | sed 's/ //g; s/[=,]/ /g' | cut -d ' ' -f2 | awk '{sum +=$1} END {print sum != 0}' )
   rm -f "$FNEW.aux.xml"
   debug "valid: $VALID"
 
-- 
2.43.0


From d884f07975ef8d5847b6a048e5036866e853b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:42 +0000
Subject: [PATCH 36/40] fix: mosaicking and tile extents report directories
 that cannot be listed

---
 bash/force-mosaic.sh      | 4 ++++
 bash/force-tile-extent.sh | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index 7e8e0ff..9f48848 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -265,6 +265,10 @@ fi
 # all products in one list
 cat force-mosaic_products-*.txt | sort | uniq > force-mosaic_all-products.txt || exit 1
 NPROD=$(wc -l force-mosaic_all-products.txt | cut -d " " -f 1)
+if [ "$NPROD" -lt 1 ]; then
+  echoerr "no products found."
+  exit 1
+fi
 
 echo "mosaicking $NPROD products:"
 #parallel -a force-mosaic_all-products.txt -j "$CPU" echo        {#} {}
diff --git a/bash/force-tile-extent.sh b/bash/force-tile-extent.sh
index 16e6095..83fe3fb 100755
--- a/bash/force-tile-extent.sh
+++ b/bash/force-tile-extent.sh
@@ -145,8 +145,11 @@ if [ $STATUS -ne 0 ]; then
 fi
 
 # find all the generated masks
-FILES_MASK=$(ls -d X*/*.tif)
-TILES_MASK=($(dirname $FILES_MASK))
+if ! FILES_MASK=$(find X* -name '*.tif'); then
+  echoerr "could not list the tiles."
+  exit 1
+fi
+TILES_MASK=($(dirname $FILES_MASK | sort))
 NTILES=${#TILES_MASK[*]}
 
 
-- 
2.43.0


From 63f03534d3ed655a19d479da69e6967b124b464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:05 +0000
Subject: [PATCH 37/40] fix: magic parameters without readable values are an
 error

---
 bash/force-magic-parameters.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bash/force-magic-parameters.sh b/bash/force-magic-parameters.sh
index d3657a0..6e0e89d 100755
--- a/bash/force-magic-parameters.sh
+++ b/bash/force-magic-parameters.sh
@@ -127,6 +127,7 @@ if [ "$COMB" = "all" ]; then
   # combine values
   for k in $KEYS; do
     VALUES=$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //' | sed 's/ /,/g' )
+    if [ -z "$VALUES" ]; then echoerr "No values found for $k"; exit 1; fi
     if [[ "$VALUES" == *,* ]]; then VALUES="{$VALUES}"; fi
     #echo $VALUES
     combis="$combis%$VALUES"
@@ -142,6 +143,7 @@ elif [ "$COMB" = "paired" ]; then
   NVALUES=0
   for k in $KEYS; do
     VALUES=$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //')
+    if [ -z "$VALUES" ]; then echoerr "No values found for $k"; exit 1; fi
     if [ "$NVALUES" -gt 0 ] && [ "$NVALUES" -ne "$(echo $VALUES | wc -w)" ]; then
       echoerr "Replacement vector misformed. If -c paired, all vectors must have the same length"; help
     fi
@@ -152,6 +154,7 @@ elif [ "$COMB" = "paired" ]; then
   combis=()
   for k in $KEYS; do
     VALUES=$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //')
+    if [ -z "$VALUES" ]; then echoerr "No values found for $k"; exit 1; fi
     #echo ${VALUES[*]}
     i=0
     for v in $VALUES; do
-- 
2.43.0


From 2e83685af8e7d6e981f79870f2450a7497e774a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:51 +0000
Subject: [PATCH 38/40] fix: unreadable lists and definitions are not taken for
 empty ones

---
 bash/force-mosaic.sh       |  2 +-
 misc/force-bash-library.sh | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index 9f48848..083000f 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -272,7 +272,7 @@ fi
 
 echo "mosaicking $NPROD products:"
 #parallel -a force-mosaic_all-products.txt -j "$CPU" echo        {#} {}
-parallel -a force-mosaic_all-products.txt -j "$CPU" mosaic_this {#} {}
+(set -o pipefail; cat force-mosaic_all-products.txt | parallel -j "$CPU" mosaic_this {#} {})
 STATUS=$?
 
 rm force-mosaic_files-*.txt
diff --git a/misc/force-bash-library.sh b/misc/force-bash-library.sh
index 73587ad..cf552af 100644
--- a/misc/force-bash-library.sh
+++ b/misc/force-bash-library.sh
@@ -163,11 +163,12 @@ export -f is_integer
 
 # read a parameter of a datacube definition; file, tag, and line in the deprecated format
 datacube_parameter(){
-  if grep -q '^PROJECTION = ' "$1"; then
-    sed -n "s/^$2 = //p" "$1"
-  else
-    sed -n "$3p" "$1"
-  fi
+  grep -q '^PROJECTION = ' "$1"
+  case $? in
+    0) sed -n "s/^$2 = //p" "$1" ;;
+    1) sed -n "$3p" "$1" ;;
+    *) return 1 ;;
+  esac
 }
 export -f datacube_parameter
 
-- 
2.43.0


From 0615562c129d24c57a0a4ba8b4326fd59f4b638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:04:04 +0000
Subject: [PATCH 39/40] fix: an unreadable elevation model is not taken for
 missing elevation

---
 src/modules/cross-level/brick_io-cl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 2814dff..c2282a8 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -1256,6 +1256,10 @@ const char *projection = NULL;
     GDALClose(src_dataset);
     GDALClose(dst_dataset);
   
+    // smaller chunks did not help
+    if (eErr != CE_None){
+      printf("could not warp %s. ", fname); return FAILURE;}
+  
     #ifdef FORCE_CLOCK
     proctime_print("warping disc to brick", TIME);
     #endif
-- 
2.43.0


From 2c06ca127fcf70d58ae50ce350fe216678c1bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:02:51 +0000
Subject: [PATCH 40/40] fix: a failed write is noticed even if warnings follow
 it

---
 src/modules/cross-level/brick_io-cl.cpp | 36 ++++++++++++++++---------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index c2282a8..0e6d23a 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -75,19 +75,31 @@ struct write_guard {
 };
 
 
-/** This function closes a dataset, which flushes any pending data
---- fp:     dataset
-+++ Return: SUCCESS/FAILURE
+/** This function counts the failures reported by GDAL. The type of the
++++ last error does not tell, as a failure may be followed by warnings.
+--- type:   error class
+--- number: error number
+--- text:   error message
++++ Return: void
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-static int close_dataset(GDALDatasetH fp){
+static void CPL_STDCALL count_failure(CPLErr type, CPLErrorNum number, const char *text){
 
-  CPLErrorReset();
-  GDALClose(fp);
+  if (type >= CE_Failure) (*(int*)CPLGetErrorHandlerUserData())++;
+  CPLCallPreviousHandler(type, number, text);
 
-  return CPLGetLastErrorType() >= CE_Failure ? FAILURE : SUCCESS;
+  return;
 }
 
 
+/** Number of failures reported by GDAL during the lifetime of the object
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+struct failure_counter {
+  int n = 0;
+  failure_counter(){ CPLPushErrorHandlerEx(count_failure, &n);}
+  ~failure_counter(){ CPLPopErrorHandler();}
+};
+
+
 /** This function outputs a brick
 --- brick:  brick
 +++ Return: SUCCESS/FAILURE
@@ -397,7 +409,7 @@ int write_brick(brick_t *brick){
         CPLPopErrorHandler();
         unlink(wname);
       }
-      CPLErrorReset();
+      failure_counter failures;
       if (!first && fileexist(fname)){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
@@ -541,12 +553,10 @@ int write_brick(brick_t *brick){
       }
    
       guard.fp = NULL;
-      error = 0;
+      if (!create) GDALClose(fp_copy);
+      GDALClose(fp);
       // pending data may have been flushed in vain without any function telling so
-      if (CPLGetLastErrorType() >= CE_Failure) error++;
-      if (!create && close_dataset(fp_copy) != SUCCESS) error++;
-      if (close_dataset(fp) != SUCCESS) error++;
-      if (error > 0){
+      if (failures.n > 0){
         printf("Unable to write %s. ", fname); return FAILURE;}
 
       if (brick->open != OPEN_CHUNK){
-- 
2.43.0

