From c951bfbe39dd3c840812149e779806161cef4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 01/45] fix: keep RM-CLEAN iteration counts when running in a
 process pool

---
 RMutils/util_RM.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..9b444d6 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -624,6 +624,8 @@ def do_rmclean_hogbom(
         ccArr[:, yi, xi] = output[i][2]
         cleanFDF[:, yi, xi] = output[i][0]
         residFDF[:, yi, xi] = output[i][1]
+        # Pool workers only change their own copy of the iteration counts
+        iterCountArr[yi, xi] = output[i][3]
 
     # Restore the residual to the CLEANed FDF (moved outside of loop:
     # will now work for pixels/spectra without clean components)
@@ -648,6 +650,8 @@ class CleanLoopResults(NamedTuple):
     """The residual Faraday dispersion function cube"""
     ccArr: np.ndarray
     """The clean components cube"""
+    iterCount: int
+    """The number of CLEAN iterations performed"""
 
 
 class RMcleaner:
@@ -775,7 +779,9 @@ class RMcleaner:
         residFDF = np.squeeze(residFDF)
         ccArr = np.squeeze(ccArr)
 
-        return CleanLoopResults(cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr)
+        return CleanLoopResults(
+            cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr, iterCount=iterCount
+        )
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From f0703f1a0c7931bec033a790e73741611b92225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 02/45] fix: let RM-CLEAN use pools without imap (rmclean3d
 --chunk without --ncores)

---
 RMutils/util_RM.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 9b444d6..66feaef 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -601,13 +601,17 @@ def do_rmclean_hogbom(
         for pix in inputs:
             output.append(rmc.cleanloop(pix))
     else:
+        if hasattr(pool, "imap"):
+            cleaned = pool.imap(
+                rmc.cleanloop,
+                inputs,
+                chunksize=chunksize if chunksize is not None else 1,
+            )
+        else:  # schwimmbad's serial and MPI pools only offer map
+            cleaned = pool.map(rmc.cleanloop, inputs)
         output = list(
             tqdm(
-                pool.imap(
-                    rmc.cleanloop,
-                    inputs,
-                    chunksize=chunksize if chunksize is not None else 1,
-                ),
+                cleaned,
                 desc="RM-CLEANing",
                 disable=not verbose,
                 total=len(inputs),
-- 
2.43.0


From d9386d45434ad28a2f13c12d0051371065d09f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 03/45] fix: take the length of a FITS axis from NAXIS instead
 of truncating a float quotient

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 66feaef..67e366a 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -802,7 +802,7 @@ def fits_make_lin_axis(head, axis=0, dtype="f4"):
     stop = (
         head["CRVAL" + i] + (head["NAXIS" + i] - head["CRPIX" + i]) * head["CDELT" + i]
     )
-    nChan = int(abs(start - stop) / head["CDELT" + i] + 1)
+    nChan = int(head["NAXIS" + i])
 
     return np.linspace(start, stop, nChan).astype(dtype)
 
-- 
2.43.0


From ed0750cd0e7eaf3a4cec24aa3f2edca74222e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 04/45] fix: close the JSON result files so that a failed write
 is reported

---
 RMtools_1D/do_QUfit_1D_mnest.py | 3 ++-
 RMtools_1D/do_RMclean_1D.py     | 3 ++-
 RMtools_1D/do_RMsynth_1D.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..d9a2bc1 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -518,7 +518,8 @@ def run_qufit(
             saveDict[k] = v.tolist()
         elif isinstance(v, (np.bool_, bool)):
             saveDict[k] = bool(v)
-    json.dump(saveDict, open(outFile, "w"))
+    with open(outFile, "w") as FH:
+        json.dump(saveDict, FH)
     outFile = f"{prefixOut}_m{modelNum}_{sampler}.dat"
     FH = open(outFile, "w")
     for k, v in saveDict.items():
diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 612afbe..42c59ae 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -333,7 +333,8 @@ def saveOutput(mDict_cl, aDict_cl, prefixOut="", verbose=False, log=print):
         elif isinstance(v, (np.bool_, bool)):
             mDict_cl[k] = bool(v)
 
-    json.dump(mDict_cl, open(outFile, "w"))
+    with open(outFile, "w") as FH:
+        json.dump(mDict_cl, FH)
 
 
 def readFiles(fdfFile, rmsfFile, weightFile, rmSynthFile, nBits):
diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..3298a41 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -652,7 +652,8 @@ def saveOutput(outdict, arrdict, prefixOut, verbose):
         elif isinstance(v, (np.bool_, bool)):
             outdict[k] = bool(v)
 
-    json.dump(dict(outdict), open(outFile, "w"))
+    with open(outFile, "w") as FH:
+        json.dump(dict(outdict), FH)
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From f562cb1105c77a1a3657a71fc4646705bc7a4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 05/45] fix: exit with a non-zero status when a tool gives up
 on its input

---
 RMtools_1D/do_QUfit_1D_mnest.py      |  4 ++--
 RMtools_1D/do_RMclean_1D.py          |  2 +-
 RMtools_1D/do_RMsynth_1D.py          |  6 +++---
 RMtools_1D/do_RMsynth_1D_fromFITS.py |  2 +-
 RMtools_1D/mk_test_ascii_data.py     |  2 +-
 RMtools_1D/rmtools_bwdepol.py        |  4 ++--
 RMtools_3D/RMpeakfit_3D.py           |  6 +++---
 RMtools_3D/do_RMclean_3D.py          |  2 +-
 RMtools_3D/do_RMsynth_3D.py          | 10 +++++-----
 RMtools_3D/do_fitIcube.py            |  8 ++++----
 RMtools_3D/mk_test_cube_data.py      |  2 +-
 RMutils/util_plotTk.py               |  6 +++---
 12 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index d9a2bc1..e5a56eb 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -223,7 +223,7 @@ def load_model(modelNum, verbose=False):
                     os.getcwd(), RMtools_dir
                 )
             )
-            sys.exit()
+            sys.exit(1)
     return mod
 
 
@@ -296,7 +296,7 @@ def run_qufit(
             print("\nError: Failed to parse data file!")
             if debug:
                 print(traceback.format_exc())
-            return
+            sys.exit(1)
 
     # If no Stokes I present, create a dummy spectrum = unity
     if noStokesI:
diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 42c59ae..e81db74 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -595,7 +595,7 @@ def main():
     for f in [weightFile, fdfFile, rmsfFile, rmSynthFile]:
         if not os.path.exists(f):
             print("File does not exist: '{:}'.".format(f), end=" ")
-            sys.exit()
+            sys.exit(1)
     nBits = 32
     dataDir, dummy = os.path.split(args.dataFile[0])
     mDict, aDict = readFiles(fdfFile, rmsfFile, weightFile, rmSynthFile, nBits)
diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 3298a41..c47f763 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -165,7 +165,7 @@ def run_rmsynth(
                 log("...failed.")
             if debug:
                 log(traceback.format_exc())
-            sys.exit()
+            sys.exit(1)
     if verbose:
         log("Successfully read in the Stokes spectra.")
 
@@ -582,7 +582,7 @@ def readFile(dataFile, nBits, verbose=True, debug=False):
                 print("...failed.")
             if debug:
                 print(traceback.format_exc())
-            sys.exit()
+            sys.exit(1)
     if verbose:
         print("Successfully read in the Stokes spectra.")
     return data
@@ -796,7 +796,7 @@ def main():
     # Sanity checks
     if not os.path.exists(args.dataFile[0]):
         print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit()
+        sys.exit(1)
     prefixOut, ext = os.path.splitext(args.dataFile[0])
     dataDir, dummy = os.path.split(args.dataFile[0])
     # Set the floating point precision
diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 8dae6af..493a77a 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -206,7 +206,7 @@ def main():
     # Sanity checks
     if not os.path.exists(args.dataFile[0]):
         print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit()
+        sys.exit(1)
     prefixOut, ext = os.path.splitext(args.dataFile[0])
     dataDir, dummy = os.path.split(args.dataFile[0])
     # Set the floating point precision
diff --git a/RMtools_1D/mk_test_ascii_data.py b/RMtools_1D/mk_test_ascii_data.py
index 1b27719..a9ea4cf 100755
--- a/RMtools_1D/mk_test_ascii_data.py
+++ b/RMtools_1D/mk_test_ascii_data.py
@@ -295,7 +295,7 @@ def create_IQU_ascii_data(
     # Check the catalogue file exists
     if not os.path.exists(inCatFile):
         print("Err: File does not exist '%s'." % inCatFile)
-        sys.exit()
+        sys.exit(1)
     catInLst = csv_read_to_list(inCatFile, doFloat=True)
     print("Found %d entries in the catalogue." % len(catInLst))
 
diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..8aecc0d 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1052,7 +1052,7 @@ def run_adjoint_rmsynth(
         log("Failed to read in data, aborting.")
         if debug:
             log(traceback.format_exc())
-        sys.exit()
+        sys.exit(1)
     if verbose:
         log("Successfully read in the Stokes spectra.")
 
@@ -1487,7 +1487,7 @@ def main():
     # Sanity checks
     if not os.path.exists(args.dataFile[0]):
         print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit()
+        sys.exit(1)
     prefixOut, ext = os.path.splitext(args.dataFile[0])
     dataDir, dummy = os.path.split(args.dataFile[0])
     # Set the floating point precision
diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d218f06..31cf5a9 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -392,13 +392,13 @@ def main():
     # Check for incompatible options:
     if args.peak_only and args.all_products:
         print("Please select at most ONE of the -a and -p flags.")
-        sys.exit()
+        sys.exit(1)
     if not os.path.exists(args.FDF_filename[0]):
         print("Cannot find FDF file. Please check filename/path.")
-        sys.exit()
+        sys.exit(1)
     if not os.path.exists(args.freq_file[0]):
         print("Cannot find frequency file. Please check filename/path.")
-        sys.exit()
+        sys.exit(1)
 
     if args.output_name[0][0] != "/":
         args.output_name[0] = "./" + args.output_name[0]
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 8e7a9a8..6a3f482 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -547,7 +547,7 @@ def main():
     for f in args.fitsFDF + args.fitsRMSF:
         if not os.path.exists(f):
             print("File does not exist: '%s'." % f)
-            sys.exit()
+            sys.exit(1)
     dataDir, dummy = os.path.split(args.fitsFDF[0])
 
     # Run RM-CLEAN on the cubes
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..eda4606 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -110,7 +110,7 @@ def run_rmsynth(
             "Err: both RM synthesis and RMSF computation not requested?\n"
             + "Please make sure either not_rmsynth or not_rmsf is False"
         )
-        sys.exit()
+        sys.exit(1)
 
     # Sanity check on header dimensions
 
@@ -122,7 +122,7 @@ def run_rmsynth(
             + str(dataU.shape)
             + "."
         )
-        sys.exit()
+        sys.exit(1)
 
     # Check dimensions of Stokes I cube, if present
     if dataI is not None:
@@ -134,7 +134,7 @@ def run_rmsynth(
                 + str(dataI.shape)
                 + "."
             )
-            sys.exit()
+            sys.exit(1)
 
     # Default data types
     dtFloat = "float" + str(nBits)
@@ -335,7 +335,7 @@ def writefits(
             "Err: both RM synthesis and RMSF computation not done?\n"
             + "Please make sure either not_rmsynth or not_rmsf is False"
         )
-        sys.exit()
+        sys.exit(1)
 
     if not_rmsf:
         FDFcube, phiArr_radm2, lam0Sq_m2, lambdaSqArr_m2 = dataArr
@@ -921,7 +921,7 @@ def main():
     for f in args.fitsQ + args.fitsU:
         if not os.path.exists(f):
             print("File does not exist: '%s'." % f)
-            sys.exit()
+            sys.exit(1)
     dataDir, dummy = os.path.split(args.fitsQ[0])
     verbose = args.verbose
     if args.fitsI is not None:
diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 1a0e951..99f56c5 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -159,7 +159,7 @@ def main():
     for f in [args.fitsI[0]]:
         if not os.path.exists(f):
             print("File does not exist: '%s'." % f)
-            sys.exit()
+            sys.exit(1)
     out_directory = args.outDir
     if not out_directory:
         out_directory, dummy = os.path.split(args.fitsI[0])
@@ -218,7 +218,7 @@ def open_datacube(fitsI, verbose=False):
     nDim = datacube.ndim
     if nDim < 3 or nDim > 4:
         print("Err: only 3 or 4 dimensions supported: D = %d." % header["NAXIS"])
-        sys.exit()
+        sys.exit(1)
 
     # freq_axis=find_freq_axis(header)
     # #If the frequency axis isn't the last one, rotate the array until it is.
@@ -252,7 +252,7 @@ def get_frequencies(datacube, header, freqFile):
     freqArr_Hz = np.loadtxt(freqFile, dtype=dtFloat)
     if nChan != len(freqArr_Hz):
         print("Err: frequency vector and frequency axis of cube unequal length.")
-        sys.exit()
+        sys.exit(1)
 
     return freqArr_Hz
 
@@ -281,7 +281,7 @@ def cube_noise(datacube, header, freqArr_Hz, threshold=-5):
 
     if nChan != len(freqArr_Hz):
         print("Err: frequency vector and frequency axis of cube unequal length.")
-        sys.exit()
+        sys.exit(1)
 
     # Measure the RMS spectrum using 2 passes of MAD on each plane
     # Determine which pixels have emission above the threshold
diff --git a/RMtools_3D/mk_test_cube_data.py b/RMtools_3D/mk_test_cube_data.py
index fe3a399..a2acbf3 100644
--- a/RMtools_3D/mk_test_cube_data.py
+++ b/RMtools_3D/mk_test_cube_data.py
@@ -310,7 +310,7 @@ def create_IQU_cube_data(
     # Check the catalogue file exists
     if not os.path.exists(inCatFile):
         print("Err: File does not exist '%s'." % inCatFile)
-        sys.exit()
+        sys.exit(1)
     catInLst = csv_read_to_list(inCatFile, doFloat=True)
     print("Found %d entries in the catalogue." % len(catInLst))
     if not Path(dataPath).exists():
diff --git a/RMutils/util_plotTk.py b/RMutils/util_plotTk.py
index f13d36c..9ef1084 100644
--- a/RMutils/util_plotTk.py
+++ b/RMutils/util_plotTk.py
@@ -1267,15 +1267,15 @@ def plot_scatter4_ax(
     if doXlog:
         if not (xMinData < 0) == (xMaxData < 0):
             print("\nErr: for log X-axis all data must have the same sign!")
-            sys.exit()
+            sys.exit(1)
     if doYlog:
         if not (yMinData < 0) == (yMaxData < 0):
             print("\nErr: for log Y-axis all data must have the same sign!")
-            sys.exit()
+            sys.exit(1)
     if zLst is not None and zPower != 1.0:
         if not (zMinData < 0) == (zMaxData < 0):
             print("\nErr: for log Z-axis all data must have the same sign!")
-            sys.exit()
+            sys.exit(1)
 
     # Set the plotting ranges (& colour limits)
     if doXlog:
-- 
2.43.0


From 43523bdc4891e7ca5dadd289896f67d66305588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 06/45] fix: chunk and reassemble images that fit in a single
 chunk

---
 RMtools_3D/assemble_chunks.py | 2 +-
 RMtools_3D/create_chunks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..c419f0b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -137,7 +137,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
+    i = num_chunks - 1
     file = chunkfiles[i]
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..2c3e16e 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -106,7 +106,7 @@ def main():
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
+    i = num_chunks - 1
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From 9131b7f153d94ea3cc44753aa18b08d5e32da9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 07/45] fix: check the number of chunks before replacing the
 output of assemblechunks

---
 RMtools_3D/assemble_chunks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index c419f0b..844e628 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -92,6 +92,9 @@ def main():
             "Right now this code only supports FITS files with 2-4 dimensions!"
         )
 
+    if len(chunkfiles) != num_chunks:
+        raise Exception("Number of chunk files found does not match expectations!")
+
     new_header = old_header.copy()
     del new_header["OLDXDIM"]
     del new_header["OLDYDIM"]
@@ -113,9 +116,6 @@ def main():
         )
         fobj.write(b"\0")
 
-    if len(chunkfiles) != num_chunks:
-        raise Exception("Number of chunk files found does not match expectations!")
-
     base_idx_arr = np.array(range(Nperchunk))
 
     large = pf.open(output_filename, mode="update", memmap=args.memmap)
-- 
2.43.0


From 7334fc5f0279caea42e64cb3e07d27f566d55283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 08/45] fix: pad the file written by assemblechunks to whole
 FITS blocks

---
 RMtools_3D/assemble_chunks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index 844e628..8741c03 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -108,12 +108,10 @@ def main():
     shape = tuple(
         new_header["NAXIS{0}".format(ii)] for ii in range(1, new_header["NAXIS"] + 1)
     )
+    # FITS files consist of whole 2880-byte blocks.
+    data_size = int(np.prod(shape) * np.abs(new_header["BITPIX"] // 8))
     with open(output_filename, "rb+") as fobj:
-        fobj.seek(
-            len(new_header.tostring())
-            + (np.prod(shape) * np.abs(new_header["BITPIX"] // 8))
-            - 1
-        )
+        fobj.seek(len(new_header.tostring()) + 2880 * ceil(data_size / 2880) - 1)
         fobj.write(b"\0")
 
     base_idx_arr = np.array(range(Nperchunk))
-- 
2.43.0


From 969a6d1fb2c99516b7b4e1c8e136f4616aae884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 09/45] fix: include the last row and column when cutting out
 of a 2D image

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..46b9d66 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -166,7 +166,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From 304388dad92bc8dc54b0035f8406c25f65f12a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 10/45] fix: rmsynth1dFITS writes its plots next to its other
 products

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 493a77a..8f5f51a 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -266,6 +266,7 @@ def main():
         verbose=verbose,
         units=args.units,
         saveFigures=args.saveOutput,
+        prefixOut=prefixOut,
         super_resolution=args.super_resolution,
     )
     if args.saveOutput:
-- 
2.43.0


From 88379c38601e62b07ea6740168fb3312933fe921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 11/45] fix: rmtools_bwdepol -v failed on a key it never sets

---
 RMtools_1D/rmtools_bwdepol.py | 3044 ++++++++++++++++-----------------
 1 file changed, 1522 insertions(+), 1522 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 8aecc0d..ff592da 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1,1522 +1,1522 @@
-#!/usr/bin/env python
-# =============================================================================#
-#                                                                             #
-# NAME:     rmtools_bwdepol.py                                                #
-#                                                                             #
-# PURPOSE: Algorithm for finding polarized sources while accounting for       #
-#          bandwidth depolarization.                                          #
-#                                                                             #
-# =============================================================================#
-#                                                                             #
-# The MIT License (MIT)                                                       #
-#                                                                             #
-# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
-# Permission is hereby granted, free of charge, to any person obtaining a     #
-# copy of this software and associated documentation files (the "Software"),  #
-# to deal in the Software without restriction, including without limitation   #
-# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
-# and/or sell copies of the Software, and to permit persons to whom the       #
-# Software is furnished to do so, subject to the following conditions:        #
-#                                                                             #
-# The above copyright notice and this permission notice shall be included in  #
-# all copies or substantial portions of the Software.                         #
-#                                                                             #
-# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
-# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
-# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
-# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
-# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
-# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
-# DEALINGS IN THE SOFTWARE.                                                   #
-#                                                                             #
-# =============================================================================#
-
-import argparse
-import math as m
-import os
-import sys
-import time
-import traceback
-
-import matplotlib.pyplot as plt
-import numpy as np
-import scipy as sp
-from astropy.constants import c as speed_of_light
-from matplotlib.ticker import MaxNLocator
-
-from RMtools_1D.do_RMsynth_1D import saveOutput
-from RMutils.util_misc import (
-    MAD,
-    create_frac_spectra,
-    nanmedian,
-    poly5,
-    progress,
-    toscalar,
-)
-from RMutils.util_plotTk import (
-    plot_complexity_fig,
-    plot_dirtyFDF_ax,
-    plot_Ipqu_spectra_fig,
-)
-from RMutils.util_RM import (
-    calc_parabola_vertex,
-    extrap,
-    fit_rmsf,
-    measure_qu_complexity,
-)
-
-if sys.version_info.major == 2:
-    print("RM-tools will no longer run with Python 2! Please use Python 3.")
-    exit()
-
-
-# -----------------------------------------------------------------------------#
-def rotation_integral_limit(freq, phi):
-    """Calculates the analytic solution to the channel polarization integral
-    at one limit frequency.
-
-    Parameters
-    ----------
-    freq: float
-          frequency in Hz
-
-    phi: float
-          Faraday depth (rad/m^2)
-
-    Returns
-    -------
-    intergral_lim: complex
-                   intergral limit
-
-    """
-    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
-    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
-    funct3 = -1.0j + np.sign(phi)
-    funct4 = sp.special.erf(
-        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
-    )
-
-    intergral_lim = funct1 + (funct2 * funct3 * funct4)
-
-    return intergral_lim
-
-
-def rotation_operator(channel_width, channel_center, phi):
-    """Rotation operator for channel with top-hat-in-frequency sensitivity.
-    Computes the net effect on a polarization vector for a channel of given
-    center frequnecy and bandwidth, for a given RM.
-
-    Parameters
-    ----------
-    channel_width: float
-                   channel bandwidth in Hz
-
-    channel_center: float
-                    channel frequency in Hz
-
-    phi: float
-         channel frequency in hz
-
-    Returns
-    -------
-    (complex) rotation operator for that channel
-
-    """
-    b = channel_center + 0.5 * channel_width
-    a = channel_center - 0.5 * channel_width
-
-    int_a = rotation_integral_limit(a, phi)
-    int_b = rotation_integral_limit(b, phi)
-
-    return (1 / channel_width) * (int_b - int_a)
-
-
-def estimate_channel_bandwidth(freq_array):
-    """Estimates the bandwidth per channel given the spacing between channel
-    centers. Only looks at the first 2 channels.
-
-    Parameters
-    ----------
-    freq_array: array-like
-                array of channel centers
-
-    Returns
-    -------
-    ban: float
-         seperation between first two channel centers
-
-    """
-    ban = freq_array[1] - freq_array[0]
-    return ban
-
-
-def l2_to_freq_array(lambda_square_array):
-    """returns the freqency array, corresponding to a lambda square array"""
-
-    f = speed_of_light.value**2 / lambda_square_array
-    return np.sqrt(f)
-
-
-def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
-    """Calculates the theoretical sensitivity and noise for the adjoint method
-
-    Parameters
-    ----------
-    adjoint_vars: list
-                  list like object containing organized as
-                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    dQUArr: array like
-            array containing the error in Stokes Q, and U
-
-    show_progress: Boolean
-                   If set to True, shows progress, Default is False
-
-    log: function
-         logging function, default is print
-
-    Returns
-    -------
-    adjoint_info: list
-                  list containing phiArr, and the theoretical noise and
-                  sensitivity organized as
-                  [phiArr_radm2, adjoint_sens, adjoint_noise]
-
-    """
-
-    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
-    adjoint_noise = np.ones(len(phiArr_radm2))
-    adjoint_sens = np.ones(len(phiArr_radm2))
-
-    nPhi = len(phiArr_radm2)
-    if show_progress:
-        log("Calculating Theoretical Sensitivity & Noise")
-        progress(40, 0)
-    for i in range(nPhi):
-        if show_progress:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
-        adjoint_noise2 = (
-            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
-            / np.sum(weightArr) ** 2
-        )  # equation 34
-        adjoint_noise[i] = np.sqrt(adjoint_noise2)
-
-        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
-
-    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
-    return adjoint_info
-
-
-def plot_adjoint_info(mylist, units="Jy/beam"):
-    """plots theoretical noise, sensitivity"""
-    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
-    fig.subplots_adjust(wspace=0.4, hspace=0.4)
-
-    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
-
-    ax[1].plot(
-        phiArr_radm2,
-        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
-    )
-    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[1].set_ylabel("S:N multiplier")
-    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
-    # plot 2
-    ax[0].plot(
-        phiArr_radm2,
-        adjoint_sens,
-    )
-    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[0].set_ylabel("Sensitivity")
-    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
-    return
-
-
-# -----------------------------------------------------------------------------#
-
-
-def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
-    """Calculates the average analytic solution to the channel polarization
-    integral per channel
-
-    Based on equation 13 of Schnitzeler & Lee (2015)
-
-    Parameters
-    ----------
-    f: float
-       channel center frequency in Hz
-
-    ban: float
-         channel bandwidth in Hz
-
-    phi: float
-         Faraday depth value in rad/m^2
-
-    xi_knot: float
-             inital polarization angle in radians
-
-    p: float
-       polarzied intensity
-
-    Returns
-    -------
-    avg_p_tilda: complex
-                 the average complex polarization, for the bandwidth,
-                 real is Q, imaginary is U
-
-    """
-    a = f - (ban / 2)
-    b = f + (ban / 2)  # integral start and stop values
-
-    ya = rotation_integral_limit(
-        a,
-        phi,
-    )
-    yb = rotation_integral_limit(
-        b,
-        phi,
-    )  # check orig for xi_knot
-
-    i = p * (yb - ya)
-    avg_p_tilda = i / ban
-
-    return avg_p_tilda
-
-
-def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
-    """Farday thin simulated source of the same RM as the measured source,
-    with unit intensity
-
-    Parameters
-    ----------
-    peak_rm: float
-             peak in Faraday depth value (in rad/m^2) for sim
-
-    freqArr_hz: array like
-                frequency array (in Hz)
-
-    width_Hz: float
-              channel width in Hz
-
-    Returns
-    -------
-    data:
-         Dirty FDF for the simulated data formated as a list of arrays
-         [freq_Hz, q, u,  dq, du]
-
-    """
-    if widths_Hz == None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-
-    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
-    size_f = len(freqArr_Hz)
-    dq = np.ones(size_f)
-    du = np.ones(size_f)
-
-    # format  = [freq_Hz, q, u,  dq, du]
-    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
-    return data
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_tweakAxFormat(
-    ax,
-    pad=10,
-    loc="upper right",
-    linewidth=1,
-    ncol=1,
-    bbox_to_anchor=(1.00, 1.00),
-    showLeg=True,
-):
-    """Tweaks some default plotting parameters for the RMSF, returns ax"""
-    # Axis/tic formatting
-    ax.tick_params(pad=pad)
-    for line in ax.get_xticklines() + ax.get_yticklines():
-        line.set_markeredgewidth(linewidth)
-
-    # Legend formatting
-    if showLeg:
-        leg = ax.legend(
-            numpoints=1,
-            loc=loc,
-            shadow=False,
-            borderaxespad=0.3,
-            ncol=ncol,
-            bbox_to_anchor=bbox_to_anchor,
-        )
-        for t in leg.get_texts():
-            t.set_fontsize("small")
-        leg.get_frame().set_linewidth(0.5)
-        leg.get_frame().set_alpha(0.5)
-
-    return ax
-
-
-def gauss(p, peak_rm):
-    """Return a fucntion to evaluate a Gaussian with parameters
-    off set by peak_rm
-
-    Parameters
-    ----------
-    p: list
-       parameters for Gaussian, p = [ampplitude, mean, FWHM]
-
-    peak_rm: float
-             peak in Faraday depth (in rad/m^2), used to center Gaussian
-
-    Returns
-    -------
-    rfun: fuction
-          Gaussian with specified parameters, off set my peak_rm
-
-    """
-
-    a, b, w = p
-    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
-    s = w / gfactor
-
-    def rfunc(x):
-        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
-        return y
-
-    return rfunc
-
-
-def bwdepol_plot_RMSF_ax(
-    ax,
-    phiArr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    axisYright=False,
-    axisXtop=False,
-    doTitle=False,
-):
-    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
-
-    # Set the axis positions
-    if axisYright:
-        ax.yaxis.tick_right()
-        ax.yaxis.set_label_position("right")
-    if axisXtop:
-        ax.xaxis.tick_top()
-        ax.xaxis.set_label_position("top")
-
-    # Plot the RMSF
-    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
-    ax.step(
-        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
-    )
-    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
-    ax.axhline(0, color="grey")
-    if doTitle:
-        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
-
-    # Plot the Gaussian fit
-    if fwhmRMSF is not None:
-        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
-        ax.plot(
-            phiArr,
-            yGauss,
-            color="g",
-            marker="None",
-            mfc="w",
-            mec="g",
-            ms=10,
-            label="Gaussian",
-            lw=2.0,
-            ls="--",
-        )
-
-    # Scaling
-    ax.yaxis.set_major_locator(MaxNLocator(4))
-    ax.xaxis.set_major_locator(MaxNLocator(4))
-    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
-    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
-    ax.set_ylabel("Normalised Units")
-    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
-    ax.axhline(0, color="grey")
-
-    # Format tweaks
-    ax = bwdepol_tweakAxFormat(ax)
-    ax.autoscale_view(True, True, True)
-
-
-def bwdepol_plot_rmsf_fdf_fig(
-    phiArr,
-    FDF,
-    phi2Arr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    gaussParm=[],
-    vLine=None,
-    fig=None,
-    units="flux units",
-):
-    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
-
-    # Default to a pyplot figure
-    if fig == None:
-        fig = plt.figure(figsize=(12.0, 8))
-    # Plot the RMSF
-    ax1 = fig.add_subplot(211)
-    bwdepol_plot_RMSF_ax(
-        ax=ax1,
-        phiArr=phi2Arr,
-        RMSFArr=RMSFArr,
-        peak_rm=peak_rm,
-        fwhmRMSF=fwhmRMSF,
-        doTitle=True,
-    )
-    [label.set_visible(False) for label in ax1.get_xticklabels()]
-    ax1.set_xlabel("")
-
-    ax2 = fig.add_subplot(212, sharex=ax1)
-    plot_dirtyFDF_ax(
-        ax=ax2,
-        phiArr=phiArr,
-        FDFArr=FDF,
-        gaussParm=gaussParm,
-        vLine=vLine,
-        doTitle=True,
-        units=units,
-    )
-    return fig
-
-
-# -----------------------------------------------------------------------------#
-# modified for adjoint
-def bwdepol_get_rmsf_planes(
-    freqArr_Hz,
-    widths_Hz,
-    phiArr_radm2,
-    peak_rm,
-    weightArr=None,
-    mskArr=None,
-    lam0Sq_m2=None,
-    double=True,
-    fitRMSF=True,
-    fitRMSFreal=False,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Calculate the Rotation Measure Spread Function from inputs. This version
-    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-    boolean mask array, where flagged data are True and unflagged data False.
-    If only whole planes (wavelength channels) are flagged then the RMSF is the
-    same for all pixels and the calculation is done once and replicated to the
-    dimensions of the mask. If some isolated voxels are flagged then the RMSF
-    is calculated by looping through each wavelength plane, which can take some
-    time. By default the routine returns the analytical width of the RMSF main
-    lobe but can also use MPFIT to fit a Gaussian.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-
-    Parameters
-    ----------
-    freqArr_Hz      ... vector of frequency values
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is no weighting
-    maskArr         ... cube of mask values used to shape return cube [None]
-    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
-    double          ... pad the Faraday depth to double-size [True]
-    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
-    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
-    nBits           ... precision of data arrays [64]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-
-    Returns
-    -------
-    RMSFcube: array
-              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-              boolean mask array
-
-    phi2Arr: array
-             array of the Faraday Depth (in rad/m^2)
-
-    fwhmRMSFArr: array
-                 fwhm of the RMSF
-
-    statArr: array
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
-    if double:
-        nPhi = phiArr_radm2.shape[0]
-        nExt = np.ceil(nPhi / 2.0)
-        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
-        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
-    else:
-        phi2Arr = phiArr_radm2
-
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Set the mask array (default to 1D, no masked channels)
-    if mskArr is None:
-        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
-        nDims = 1
-    else:
-        mskArr = mskArr.astype("bool")
-        nDims = len(mskArr.shape)
-
-    # Sanity checks on array sizes
-    if not weightArr.shape == freqArr_Hz.shape:
-        log("Err: wavelength^2 and weight arrays must be the same shape.")
-        return None, None, None, None
-    if not nDims <= 3:
-        log("Err: mask dimensions must be <= 3.")
-        return None, None, None, None
-    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
-        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
-        (mskArr.shape[0], freqArr_Hz.shape[-1])
-        log("     Check that the mask is in [z, y, x] order.")
-        return None, None, None, None
-
-    # Reshape the mask array to 3 dimensions
-    if nDims == 1:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
-    elif nDims == 2:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
-
-    # Initialise the complex RM Spread Function cube
-    nX = mskArr.shape[-1]
-    nY = mskArr.shape[-2]
-    nPix = nX * nY
-    nPhi = phi2Arr.shape[0]
-    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
-
-    # If full planes are flagged then set corresponding weights to zero
-    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
-    mskPlanes = np.where(xySum == nPix, 0, 1)
-    weightArr *= mskPlanes
-
-    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
-    flagTotals = np.unique(xySum).tolist()
-    try:
-        flagTotals.remove(0)
-    except Exception:
-        pass
-    try:
-        flagTotals.remove(nPix)
-    except Exception:
-        pass
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Calculate the analytical FWHM width of the main lobe
-    fwhmRMSF = (
-        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
-    )
-
-    # Create simulated data set with simRM = peakRM
-    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
-    # RMSFArr = fdf from bwdepol_simulation
-    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
-        freqArr_Hz,
-        RMSF_data[1],
-        RMSF_data[2],
-        phiArr_radm2,
-        widths_Hz=widths_Hz,
-        weightArr=weightArr,
-        lam0Sq_m2=lam0Sq_m2,
-        verbose=verbose,
-        log=print,
-    )
-
-    # Fit the RMSF main lobe
-    fitStatus = -1
-    if fitRMSF:
-        if verbose:
-            log("Fitting Gaussian to the main lobe.")
-        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
-        if mp is None or mp.status < 1:
-            pass
-            log("Err: failed to fit the RMSF.")
-            log("     Defaulting to analytical value.")
-        else:
-            fwhmRMSF = mp.params[2]
-            fitStatus = mp.status
-
-    # Replicate along X and Y axes
-    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
-    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
-    statArr = np.ones((nY, nX), dtype="int") * fitStatus
-
-    # Remove redundant dimensions
-    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
-    statArr = np.squeeze(statArr)
-    RMSFcube = RMSFcube.reshape(-1)
-
-    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_measure_FDF_parms(
-    FDF,
-    phiArr,
-    fwhmRMSF,
-    adjoint_sens,
-    adjoint_noise,
-    dFDF=None,
-    lamSqArr_m2=None,
-    lam0Sq=None,
-    snrDoBiasCorrect=5.0,
-):
-    """
-    Measure standard parameters from a complex Faraday Dispersion Function.
-    Currently this function assumes that the noise levels in the Stokes Q
-    and U spectra are the same.
-    Returns a dictionary containing measured parameters.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-    """
-
-    # Determine the peak channel in the FDF, its amplitude and index
-    absFDF = np.abs(FDF)
-    rm_fdf = (
-        absFDF / adjoint_noise
-    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
-    amp_fdf = (
-        absFDF / adjoint_sens
-    )  # RM spectrum normalized by (RM-dependent) sensitivity
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
-
-    # new theoretical dFDF correction for adjoint method
-    # This is noise in the adjoint-spectrum.
-    dFDF = adjoint_noise[indxPeakPIchan]
-
-    # This is the error in the amplitude (accounting for re-normalization)
-    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
-
-    # Measure the RMS noise in the spectrum after masking the peak
-    # changed all absFDF to rm_fdf
-    # Since this is normalized by theoretical noise, it's effectively testing
-    # the noise relative to the theoretical noise.
-    dPhi = np.nanmin(np.diff(phiArr))
-    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
-    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
-    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
-    absFDFmsked = rm_fdf.copy()
-    absFDFmsked[iL:iR] = np.nan
-    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
-    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
-        dFDFcorMAD = MAD(rm_fdf)
-    else:
-        dFDFcorMAD = MAD(absFDFmsked)
-
-    # The noise is re-normalized by the predicted noise at the peak RM.
-    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
-
-    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
-    varLamSqArr_m2 = (
-        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
-    ) / (nChansGood - 1)
-
-    # Determine the peak in the FDF, its amplitude and Phi using a
-    # 3-point parabolic interpolation
-    phiPeakPIfit = None
-    dPhiPeakPIfit = None
-    ampPeakPIfit = None
-    snrPIfit = None
-    ampPeakPIfitEff = None
-    indxPeakPIfit = None
-    peakFDFimagFit = None
-    peakFDFrealFit = None
-    polAngleFit_deg = None
-    dPolAngleFit_deg = None
-    polAngle0Fit_deg = None
-    dPolAngle0Fit_deg = None
-
-    # Only do the 3-point fit if peak is 1-channel from either edge
-    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
-        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
-            phiArr[indxPeakPIchan - 1],
-            amp_fdf[indxPeakPIchan - 1],
-            phiArr[indxPeakPIchan],
-            amp_fdf[indxPeakPIchan],
-            phiArr[indxPeakPIchan + 1],
-            amp_fdf[indxPeakPIchan + 1],
-        )
-
-        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
-
-        # Error on fitted Faraday depth (RM) is same as channel
-        # but using fitted PI
-        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
-
-        # Correct the peak for polarisation bias (POSSUM report 11)
-        ampPeakPIfitEff = ampPeakPIfit
-        if snrPIfit >= snrDoBiasCorrect:
-            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
-
-        # Calculate the polarisation angle from the fitted peak
-        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
-        indxPeakPIfit = np.interp(
-            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
-        )
-        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
-        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
-        polAngleFit_deg = (
-            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
-        )
-        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
-
-        # Calculate the derotated polarisation angle and uncertainty
-        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
-        polAngle0Fit_deg = (
-            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
-        ) % 180
-        dPolAngle0Fit_rad = np.sqrt(
-            nChansGood
-            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
-            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
-        )
-        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
-
-    # Store the measurements in a dictionary and return
-    mDict = {
-        "dFDFcorMAD": toscalar(dFDFcorMAD),
-        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
-        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
-        "ampPeakPIfit": toscalar(ampPeakPIfit),
-        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
-        "dAmpPeakPIfit": toscalar(dampPeakPI),
-        "snrPIfit": toscalar(snrPIfit),
-        "indxPeakPIfit": toscalar(indxPeakPIfit),
-        "peakFDFimagFit": toscalar(peakFDFimagFit),
-        "peakFDFrealFit": toscalar(peakFDFrealFit),
-        "polAngleFit_deg": toscalar(polAngleFit_deg),
-        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
-        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
-        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
-    }
-
-    return mDict
-
-
-# -----------------------------------------------------------------------------#
-def do_adjoint_rmsynth_planes(
-    freqArr_Hz,
-    dataQ,
-    dataU,
-    phiArr_radm2,
-    widths_Hz=None,
-    weightArr=None,
-    lam0Sq_m2=None,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
-    of the routine loops through spectral planes and is faster than the pixel-
-    by-pixel code. This version also correctly deals with isolated clumps of
-    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
-    but possible in single-dish cubes). Input data must be in standard python
-    [z,y,x] order, where z is the frequency axis in ascending order.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-    Parameters
-    ----------
-    dataQ           ... 1, 2 or 3D Stokes Q data array
-    dataU           ... 1, 2 or 3D Stokes U data array
-    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
-    nBits           ... precision of data arrays [32]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-    Returns
-    -------
-    FDFcube: array
-             Faraday Dispersion Function (FDF)
-
-    lam0Sq_m2: array
-               lam0Sq_m2 is the weighted mean of lambda^2 distribution
-               (B&dB Eqn. 32)
-
-    adjoint_vars: list
-                  information to generate theoretical noise, sensitivity
-                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
-                                  weightArr]
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Sanity check on array sizes
-    if not weightArr.shape == lambdaSqArr_m2.shape:
-        log("Err: Lambda^2 and weight arrays must be the same shape.")
-        return None, None
-    if not dataQ.shape == dataU.shape:
-        log("Err: Stokes Q and U data arrays must be the same shape.")
-        return None, None
-    nDims = len(dataQ.shape)
-    if not nDims <= 3:
-        log("Err: data dimensions must be <= 3.")
-        return None, None
-    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
-        log(
-            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
-                dataQ.shape[0], lambdaSqArr_m2.shape[0]
-            ),
-            end=" ",
-        )
-        log("     Check that data is in [z, y, x] order.")
-        return None, None
-
-    # Reshape the data arrays to 3 dimensions
-    if nDims == 1:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
-    elif nDims == 2:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
-
-    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
-    # Array has dimensions [nFreq, nY, nX]
-    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
-
-    # Check for NaNs (flagged data) in the cube & set to zero
-    mskCube = np.isnan(pCube)
-    pCube = np.nan_to_num(pCube)
-
-    # If full planes are flagged then set corresponding weights to zero
-    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
-    mskPlanes = np.where(mskPlanes == 0, 0, 1)
-    weightArr *= mskPlanes
-
-    # Initialise the complex Faraday Dispersion Function cube
-    nX = dataQ.shape[-1]
-    nY = dataQ.shape[-2]
-    nPhi = phiArr_radm2.shape[0]
-    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
-
-    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
-    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
-    K = 1.0 / np.sum(weightArr)
-    if lam0Sq_m2 is None:
-        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
-
-    # The K value used to scale each FDF spectrum must take into account
-    # flagged voxels data in the datacube and can be position dependent
-    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
-    with np.errstate(divide="ignore", invalid="ignore"):
-        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
-        KArr[KArr == np.inf] = 0
-        KArr = np.nan_to_num(KArr)
-
-    # Do the RM-synthesis on each plane
-    if verbose:
-        log("Running RM-synthesis by channel.")
-        progress(40, 0)
-
-    # calculate channel widths if necessary
-    if widths_Hz == None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-    for i in range(nPhi):
-        if verbose:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
-            :, np.newaxis, np.newaxis
-        ]
-        arg0 = pCube * cor * np.conj(r_i)
-        arg = arg0
-        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
-
-    # information to generate theoretical noise, sensitivity
-    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    # Remove redundant dimensions in the FDF array
-    FDFcube = np.squeeze(FDFcube)
-    return FDFcube, lam0Sq_m2, adjoint_vars
-
-
-# -----------------------------------------------------------------------------#
-def run_adjoint_rmsynth(
-    data,
-    polyOrd=3,
-    phiMax_radm2=None,
-    dPhi_radm2=None,
-    nSamples=10.0,
-    weightType="variance",
-    fitRMSF=True,
-    noStokesI=False,
-    phiNoise_radm2=1e6,
-    nBits=64,
-    showPlots=False,
-    debug=False,
-    verbose=False,
-    log=print,
-    units="Jy/beam",
-):
-    """Run bwdepol RM synthesis on 1D data.
-
-    Args:
-        data (list): Contains frequency and polarization data as either:
-            [freq_Hz, I, Q, U, dI, dQ, dU]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                I (array_like): Stokes I intensity in each channel.
-                Q (array_like): Stokes Q intensity in each channel.
-                U (array_like): Stokes U intensity in each channel.
-                dI (array_like): Error in Stokes I intensity in each channel.
-                dQ (array_like): Error in Stokes Q intensity in each channel.
-                dU (array_like): Error in Stokes U intensity in each channel.
-            or
-            [freq_Hz, q, u,  dq, du]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
-                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
-                dq (array_like): Error in fractional Stokes Q intensity in each channel.
-                du (array_like): Error in fractional Stokes U intensity in each channel.
-
-    Kwargs:
-        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
-        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
-        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
-        nSamples (float): Number of samples across the RMSF.
-        weightType (str): Can be "variance" or "uniform"
-            "variance" -- Weight by uncertainty in Q and U.
-            "uniform" -- Weight uniformly (i.e. with 1s)
-        fitRMSF (bool): Fit a Gaussian to the RMSF?
-        noStokesI (bool: Is Stokes I data provided?
-        phiNoise_radm2 (float): ????
-        nBits (int): Precision of floating point numbers.
-        showPlots (bool): Show plots?
-        debug (bool): Turn on debugging messages & plots?
-        verbose (bool): Verbosity.
-        log (function): Which logging function to use.
-        units (str): Units of data.
-
-    Returns:
-        mDict (dict): Summary of RM synthesis results.
-        aDict (dict): Data output by RM synthesis.
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    #    dtComplex = "complex" + str(2*nBits)
-
-    # freq_Hz, I, Q, U, dI, dQ, dU
-    if data.shape[0] == 7:
-        if verbose:
-            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
-        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-        widths_Hz = None
-    elif data.shape[0] == 8:
-        if verbose:
-            log(
-                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-    elif data.shape[0] == 6:
-        if verbose:
-            log(
-                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
-    elif data.shape[0] == 5:
-        if verbose:
-            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
-        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
-        widths_Hz = None
-        noStokesI = True
-    else:
-        log("Failed to read in data, aborting.")
-        if debug:
-            log(traceback.format_exc())
-        sys.exit(1)
-    if verbose:
-        log("Successfully read in the Stokes spectra.")
-
-    # If no Stokes I present, create a dummy spectrum = unity
-    if noStokesI:
-        if verbose:
-            log("Warn: no Stokes I data in use.")
-        IArr = np.ones_like(QArr)
-        dIArr = np.zeros_like(QArr)
-
-    # Convert to GHz for convenience
-    freqArr_GHz = freqArr_Hz / 1e9
-    dQUArr = (dQArr + dUArr) / 2.0
-
-    # Fit the Stokes I spectrum and create the fractional spectra
-    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_GHz,
-        IArr=IArr,
-        QArr=QArr,
-        UArr=UArr,
-        dIArr=dIArr,
-        dQArr=dQArr,
-        dUArr=dUArr,
-        polyOrd=polyOrd,
-        verbose=True,
-        debug=debug,
-    )
-
-    # Plot the data and the Stokes I model fit
-    if showPlots:
-        if verbose:
-            log("Plotting the input data and spectral index fit.")
-        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
-        specFig = plt.figure(figsize=(12.0, 8))
-        plot_Ipqu_spectra_fig(
-            freqArr_Hz=freqArr_Hz,
-            IArr=IArr,
-            qArr=qArr,
-            uArr=uArr,
-            dIArr=dIArr,
-            dqArr=dqArr,
-            duArr=duArr,
-            freqHirArr_Hz=freqHirArr_Hz,
-            IModArr=IModHirArr,
-            fig=specFig,
-            units=units,
-        )
-
-        # DEBUG (plot the Q, U and average RMS spectrum)
-        if debug:
-            rmsFig = plt.figure(figsize=(12.0, 8))
-            ax = rmsFig.add_subplot(111)
-            ax.plot(
-                freqArr_Hz / 1e9,
-                dQUArr,
-                marker="o",
-                color="k",
-                lw=0.5,
-                label="rms <QU>",
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
-            )
-            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
-            ax.set_xlim(
-                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
-                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
-            )
-            ax.set_xlabel(r"$\nu$ (GHz)")
-            ax.set_ylabel("RMS " + units)
-            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
-
-    # Calculate some wavelength parameters
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
-    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
-    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
-
-    # Set the Faraday depth range
-    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
-    if dPhi_radm2 is None:
-        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
-    if phiMax_radm2 is None:
-        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
-        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
-
-    # Faraday depth sampling. Zero always centred on middle channel
-    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
-    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
-    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
-    if verbose:
-        log(
-            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
-            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
-        )
-
-    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
-    if weightType == "variance":
-        weightArr = 1.0 / np.power(dQUArr, 2.0)
-    else:
-        weightType = "uniform"
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    if verbose:
-        log("Weight type is '%s'." % weightType)
-
-    startTime = time.time()
-
-    # Perform adjoint RM-synthesis on the spectrum
-    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        dataQ=qArr,
-        dataU=uArr,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-    )
-
-    # generate adjoint_noise and adjoint__sens
-    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
-    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
-
-    # calculate peak RM
-    absFDF = np.abs(dirtyFDF)
-    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
-    peak_rm = phiArr_radm2[indxPeakPIchan]
-
-    # Calculate the Rotation Measure Spread Function
-    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
-        lam0Sq_m2=lam0Sq_m2,
-        double=True,
-        fitRMSF=fitRMSF,
-        fitRMSFreal=False,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-        peak_rm=peak_rm,
-    )
-    fwhmRMSF = float(fwhmRMSFArr)
-    endTime = time.time()
-    cputime = endTime - startTime
-    if verbose:
-        log("> RM-synthesis completed in %.2f seconds." % cputime)
-
-    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
-    # Multiply the dirty FDF by Ifreq0 to recover the PI
-    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
-    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
-
-    # Calculate the theoretical noise in the FDF !!
-    # Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-    dFDFth = np.sqrt(
-        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
-    )
-
-    # Measure the parameters of the dirty FDF
-    # Use the theoretical noise to calculate uncertainties
-
-    mDict = bwdepol_measure_FDF_parms(
-        FDF=dirtyFDF,
-        phiArr=phiArr_radm2,
-        fwhmRMSF=fwhmRMSF,
-        adjoint_sens=adjoint_sens,
-        adjoint_noise=adjoint_noise,
-        dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
-        lam0Sq=lam0Sq_m2,
-    )
-
-    mDict["Ifreq0"] = toscalar(Ifreq0)
-    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
-    mDict["IfitStat"] = fit_result.fitStatus
-    mDict["IfitChiSqRed"] = fit_result.chiSqRed
-    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
-    mDict["freq0_Hz"] = toscalar(freq0_Hz)
-    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
-    mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
-    mDict["units"] = units
-
-    if fit_result.fitStatus >= 128:
-        log("WARNING: Stokes I model contains negative values!")
-    elif fit_result.fitStatus >= 64:
-        log("Caution: Stokes I model has low signal-to-noise.")
-
-    # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
-    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
-    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
-    mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
-        mDict["median_channel_width"] = float(np.median(widths_Hz))
-    else:
-        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-
-    # Measure the complexity of the q and u spectra
-    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
-    mD, pD = measure_qu_complexity(
-        freqArr_Hz=freqArr_Hz,
-        qArr=qArr,
-        uArr=uArr,
-        dqArr=dqArr,
-        duArr=duArr,
-        fracPol=mDict["fracPol"],
-        psi0_deg=mDict["polAngle0Fit_deg"],
-        RM_radm2=mDict["phiPeakPIfit_rm2"],
-    )
-    mDict.update(mD)
-
-    # Debugging plots for spectral complexity measure
-    if debug:
-        tmpFig = plot_complexity_fig(
-            xArr=pD["xArrQ"],
-            qArr=pD["yArrQ"],
-            dqArr=pD["dyArrQ"],
-            sigmaAddqArr=pD["sigmaAddArrQ"],
-            chiSqRedqArr=pD["chiSqRedArrQ"],
-            probqArr=pD["probArrQ"],
-            uArr=pD["yArrU"],
-            duArr=pD["dyArrU"],
-            sigmaAdduArr=pD["sigmaAddArrU"],
-            chiSqReduArr=pD["chiSqRedArrU"],
-            probuArr=pD["probArrU"],
-            mDict=mDict,
-        )
-        tmpFig.show()
-
-    # add array dictionary
-    aDict = dict()
-    aDict["phiArr_radm2"] = phiArr_radm2
-    aDict["phi2Arr_radm2"] = phi2Arr_radm2
-    aDict["RMSFArr"] = RMSFArr
-    aDict["freqArr_Hz"] = freqArr_Hz
-    aDict["weightArr"] = weightArr
-    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
-
-    if verbose:
-        # Print the results to the screen
-        log()
-        log("-" * 80)
-        log("RESULTS:\n")
-        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
-
-        log(
-            "Pol Angle = %.4g (+/-%.4g) deg"
-            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
-        )
-        log(
-            "Pol Angle 0 = %.4g (+/-%.4g) deg"
-            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
-        )
-        log(
-            "Peak FD = %.4g (+/-%.4g) rad/m^2"
-            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
-        )
-        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
-        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
-        log(
-            "Peak PI = %.4g (+/-%.4g) %s"
-            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
-        )
-        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
-        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
-        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
-        log(
-            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
-            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
-        )
-        log()
-        log("-" * 80)
-
-    # Plot the RM Spread Function and dirty FDF
-    if showPlots:
-        plot_adjoint_info(adjoint_info, units=units)
-        fdfFig = plt.figure(figsize=(12.0, 8))
-        bwdepol_plot_rmsf_fdf_fig(
-            phiArr=phiArr_radm2,
-            FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
-            RMSFArr=RMSFArr,
-            peak_rm=peak_rm,
-            fwhmRMSF=fwhmRMSF,
-            vLine=mDict["phiPeakPIfit_rm2"],
-            fig=fdfFig,
-            units=units,
-        )
-
-    if showPlots or debug:
-        plt.show()
-
-    return mDict, aDict
-
-
-# -----------------------------------------------------------------------------#
-def main():
-    """
-    Start the function to perform bwdepol RM-synthesis if called from the command line.
-    """
-
-    # Help string to be shown using the -h option
-    descStr = """
-    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
-    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
-
-    Behaves similarly to rmsynth1d except that the input file can optionally
-    contain a column with the channel widths in Hz. If this column is not
-    given, the channel widths will be assumed to be uniform and calculated
-    based on the difference between the frequencies of the first two channels.
-
-    The ASCII file requires one of the following column configurations,
-    depending on whether Stokes I and channel width information are available,
-    in a space separated format:
-    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, Q, U, Q_err, U_err]
-    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
-
-
-    To get outputs, one or more of the following flags must be set: -S, -p, -v.
-    """
-
-    epilog_text = """
-    Outputs with -S flag:
-    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
-    _RMSF.dat: Computed RMSF [Phi, Q, U]
-    _RMsynth.dat: list of derived parameters for RM spectrum
-                (approximately equivalent to -v flag output)
-    _RMsynth.json: dictionary of derived parameters for RM spectrum
-    _weight.dat: Calculated channel weights [freq_Hz, weight]
-    """
-
-    # Parse the command line options
-    parser = argparse.ArgumentParser(
-        description=descStr,
-        epilog=epilog_text,
-        formatter_class=argparse.RawTextHelpFormatter,
-    )
-    parser.add_argument(
-        "dataFile",
-        metavar="dataFile.dat",
-        nargs=1,
-        help="ASCII file containing Stokes spectra & errors.",
-    )
-    parser.add_argument(
-        "-t",
-        dest="fitRMSF",
-        action="store_false",
-        help="fit a Gaussian to the RMSF [True; set flag to disable]",
-    )
-    parser.add_argument(
-        "-l",
-        dest="phiMax_radm2",
-        type=float,
-        default=None,
-        help="absolute max Faraday depth sampled [Auto].",
-    )
-    parser.add_argument(
-        "-d",
-        dest="dPhi_radm2",
-        type=float,
-        default=None,
-        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
-    )
-    parser.add_argument(
-        "-s",
-        dest="nSamples",
-        type=float,
-        default=10,
-        help="number of samples across the RMSF lobe [10].",
-    )
-    parser.add_argument(
-        "-w",
-        dest="weightType",
-        default="variance",
-        help="weighting [inverse variance] or 'uniform' (all 1s).",
-    )
-    parser.add_argument(
-        "-o",
-        dest="polyOrd",
-        type=int,
-        default=2,
-        help="polynomial order to fit to I spectrum [2].",
-    )
-    parser.add_argument(
-        "-i",
-        dest="noStokesI",
-        action="store_true",
-        help="ignore the Stokes I spectrum [False].",
-    )
-    parser.add_argument(
-        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
-    )
-    parser.add_argument(
-        "-v", dest="verbose", action="store_true", help="verbose output [False]."
-    )
-    parser.add_argument(
-        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
-    )
-    parser.add_argument(
-        "-D",
-        dest="debug",
-        action="store_true",
-        help="turn on debugging messages & plots [False].",
-    )
-    parser.add_argument(
-        "-U",
-        dest="units",
-        type=str,
-        default="Jy/beam",
-        help="Intensity units of the data. [Jy/beam]",
-    )
-    args = parser.parse_args()
-
-    # Sanity checks
-    if not os.path.exists(args.dataFile[0]):
-        print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit(1)
-    prefixOut, ext = os.path.splitext(args.dataFile[0])
-    dataDir, dummy = os.path.split(args.dataFile[0])
-    # Set the floating point precision
-    nBits = 64
-
-    # Read in the data. Don't parse until inside the first function.
-    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
-
-    # Run (modified) RM-synthesis on the spectra
-    mDict, aDict = run_adjoint_rmsynth(
-        data=data,
-        polyOrd=args.polyOrd,
-        phiMax_radm2=args.phiMax_radm2,
-        dPhi_radm2=args.dPhi_radm2,
-        nSamples=args.nSamples,
-        weightType=args.weightType,
-        fitRMSF=args.fitRMSF,
-        noStokesI=args.noStokesI,
-        nBits=nBits,
-        showPlots=args.showPlots,
-        debug=args.debug,
-        verbose=args.verbose,
-        units=args.units,
-    )
-
-    if args.saveOutput:
-        saveOutput(mDict, aDict, prefixOut, args.verbose)
-
-
-# -----------------------------------------------------------------------------#
-if __name__ == "__main__":
-    main()
+#!/usr/bin/env python
+# =============================================================================#
+#                                                                             #
+# NAME:     rmtools_bwdepol.py                                                #
+#                                                                             #
+# PURPOSE: Algorithm for finding polarized sources while accounting for       #
+#          bandwidth depolarization.                                          #
+#                                                                             #
+# =============================================================================#
+#                                                                             #
+# The MIT License (MIT)                                                       #
+#                                                                             #
+# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
+# Permission is hereby granted, free of charge, to any person obtaining a     #
+# copy of this software and associated documentation files (the "Software"),  #
+# to deal in the Software without restriction, including without limitation   #
+# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
+# and/or sell copies of the Software, and to permit persons to whom the       #
+# Software is furnished to do so, subject to the following conditions:        #
+#                                                                             #
+# The above copyright notice and this permission notice shall be included in  #
+# all copies or substantial portions of the Software.                         #
+#                                                                             #
+# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
+# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
+# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
+# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
+# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
+# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
+# DEALINGS IN THE SOFTWARE.                                                   #
+#                                                                             #
+# =============================================================================#
+
+import argparse
+import math as m
+import os
+import sys
+import time
+import traceback
+
+import matplotlib.pyplot as plt
+import numpy as np
+import scipy as sp
+from astropy.constants import c as speed_of_light
+from matplotlib.ticker import MaxNLocator
+
+from RMtools_1D.do_RMsynth_1D import saveOutput
+from RMutils.util_misc import (
+    MAD,
+    create_frac_spectra,
+    nanmedian,
+    poly5,
+    progress,
+    toscalar,
+)
+from RMutils.util_plotTk import (
+    plot_complexity_fig,
+    plot_dirtyFDF_ax,
+    plot_Ipqu_spectra_fig,
+)
+from RMutils.util_RM import (
+    calc_parabola_vertex,
+    extrap,
+    fit_rmsf,
+    measure_qu_complexity,
+)
+
+if sys.version_info.major == 2:
+    print("RM-tools will no longer run with Python 2! Please use Python 3.")
+    exit()
+
+
+# -----------------------------------------------------------------------------#
+def rotation_integral_limit(freq, phi):
+    """Calculates the analytic solution to the channel polarization integral
+    at one limit frequency.
+
+    Parameters
+    ----------
+    freq: float
+          frequency in Hz
+
+    phi: float
+          Faraday depth (rad/m^2)
+
+    Returns
+    -------
+    intergral_lim: complex
+                   intergral limit
+
+    """
+    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
+    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
+    funct3 = -1.0j + np.sign(phi)
+    funct4 = sp.special.erf(
+        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
+    )
+
+    intergral_lim = funct1 + (funct2 * funct3 * funct4)
+
+    return intergral_lim
+
+
+def rotation_operator(channel_width, channel_center, phi):
+    """Rotation operator for channel with top-hat-in-frequency sensitivity.
+    Computes the net effect on a polarization vector for a channel of given
+    center frequnecy and bandwidth, for a given RM.
+
+    Parameters
+    ----------
+    channel_width: float
+                   channel bandwidth in Hz
+
+    channel_center: float
+                    channel frequency in Hz
+
+    phi: float
+         channel frequency in hz
+
+    Returns
+    -------
+    (complex) rotation operator for that channel
+
+    """
+    b = channel_center + 0.5 * channel_width
+    a = channel_center - 0.5 * channel_width
+
+    int_a = rotation_integral_limit(a, phi)
+    int_b = rotation_integral_limit(b, phi)
+
+    return (1 / channel_width) * (int_b - int_a)
+
+
+def estimate_channel_bandwidth(freq_array):
+    """Estimates the bandwidth per channel given the spacing between channel
+    centers. Only looks at the first 2 channels.
+
+    Parameters
+    ----------
+    freq_array: array-like
+                array of channel centers
+
+    Returns
+    -------
+    ban: float
+         seperation between first two channel centers
+
+    """
+    ban = freq_array[1] - freq_array[0]
+    return ban
+
+
+def l2_to_freq_array(lambda_square_array):
+    """returns the freqency array, corresponding to a lambda square array"""
+
+    f = speed_of_light.value**2 / lambda_square_array
+    return np.sqrt(f)
+
+
+def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
+    """Calculates the theoretical sensitivity and noise for the adjoint method
+
+    Parameters
+    ----------
+    adjoint_vars: list
+                  list like object containing organized as
+                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    dQUArr: array like
+            array containing the error in Stokes Q, and U
+
+    show_progress: Boolean
+                   If set to True, shows progress, Default is False
+
+    log: function
+         logging function, default is print
+
+    Returns
+    -------
+    adjoint_info: list
+                  list containing phiArr, and the theoretical noise and
+                  sensitivity organized as
+                  [phiArr_radm2, adjoint_sens, adjoint_noise]
+
+    """
+
+    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
+    adjoint_noise = np.ones(len(phiArr_radm2))
+    adjoint_sens = np.ones(len(phiArr_radm2))
+
+    nPhi = len(phiArr_radm2)
+    if show_progress:
+        log("Calculating Theoretical Sensitivity & Noise")
+        progress(40, 0)
+    for i in range(nPhi):
+        if show_progress:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
+        adjoint_noise2 = (
+            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            / np.sum(weightArr) ** 2
+        )  # equation 34
+        adjoint_noise[i] = np.sqrt(adjoint_noise2)
+
+        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
+
+    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
+    return adjoint_info
+
+
+def plot_adjoint_info(mylist, units="Jy/beam"):
+    """plots theoretical noise, sensitivity"""
+    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
+    fig.subplots_adjust(wspace=0.4, hspace=0.4)
+
+    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
+
+    ax[1].plot(
+        phiArr_radm2,
+        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
+    )
+    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[1].set_ylabel("S:N multiplier")
+    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
+    # plot 2
+    ax[0].plot(
+        phiArr_radm2,
+        adjoint_sens,
+    )
+    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[0].set_ylabel("Sensitivity")
+    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
+    return
+
+
+# -----------------------------------------------------------------------------#
+
+
+def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
+    """Calculates the average analytic solution to the channel polarization
+    integral per channel
+
+    Based on equation 13 of Schnitzeler & Lee (2015)
+
+    Parameters
+    ----------
+    f: float
+       channel center frequency in Hz
+
+    ban: float
+         channel bandwidth in Hz
+
+    phi: float
+         Faraday depth value in rad/m^2
+
+    xi_knot: float
+             inital polarization angle in radians
+
+    p: float
+       polarzied intensity
+
+    Returns
+    -------
+    avg_p_tilda: complex
+                 the average complex polarization, for the bandwidth,
+                 real is Q, imaginary is U
+
+    """
+    a = f - (ban / 2)
+    b = f + (ban / 2)  # integral start and stop values
+
+    ya = rotation_integral_limit(
+        a,
+        phi,
+    )
+    yb = rotation_integral_limit(
+        b,
+        phi,
+    )  # check orig for xi_knot
+
+    i = p * (yb - ya)
+    avg_p_tilda = i / ban
+
+    return avg_p_tilda
+
+
+def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
+    """Farday thin simulated source of the same RM as the measured source,
+    with unit intensity
+
+    Parameters
+    ----------
+    peak_rm: float
+             peak in Faraday depth value (in rad/m^2) for sim
+
+    freqArr_hz: array like
+                frequency array (in Hz)
+
+    width_Hz: float
+              channel width in Hz
+
+    Returns
+    -------
+    data:
+         Dirty FDF for the simulated data formated as a list of arrays
+         [freq_Hz, q, u,  dq, du]
+
+    """
+    if widths_Hz == None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+
+    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
+    size_f = len(freqArr_Hz)
+    dq = np.ones(size_f)
+    du = np.ones(size_f)
+
+    # format  = [freq_Hz, q, u,  dq, du]
+    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
+    return data
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_tweakAxFormat(
+    ax,
+    pad=10,
+    loc="upper right",
+    linewidth=1,
+    ncol=1,
+    bbox_to_anchor=(1.00, 1.00),
+    showLeg=True,
+):
+    """Tweaks some default plotting parameters for the RMSF, returns ax"""
+    # Axis/tic formatting
+    ax.tick_params(pad=pad)
+    for line in ax.get_xticklines() + ax.get_yticklines():
+        line.set_markeredgewidth(linewidth)
+
+    # Legend formatting
+    if showLeg:
+        leg = ax.legend(
+            numpoints=1,
+            loc=loc,
+            shadow=False,
+            borderaxespad=0.3,
+            ncol=ncol,
+            bbox_to_anchor=bbox_to_anchor,
+        )
+        for t in leg.get_texts():
+            t.set_fontsize("small")
+        leg.get_frame().set_linewidth(0.5)
+        leg.get_frame().set_alpha(0.5)
+
+    return ax
+
+
+def gauss(p, peak_rm):
+    """Return a fucntion to evaluate a Gaussian with parameters
+    off set by peak_rm
+
+    Parameters
+    ----------
+    p: list
+       parameters for Gaussian, p = [ampplitude, mean, FWHM]
+
+    peak_rm: float
+             peak in Faraday depth (in rad/m^2), used to center Gaussian
+
+    Returns
+    -------
+    rfun: fuction
+          Gaussian with specified parameters, off set my peak_rm
+
+    """
+
+    a, b, w = p
+    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
+    s = w / gfactor
+
+    def rfunc(x):
+        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
+        return y
+
+    return rfunc
+
+
+def bwdepol_plot_RMSF_ax(
+    ax,
+    phiArr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    axisYright=False,
+    axisXtop=False,
+    doTitle=False,
+):
+    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
+
+    # Set the axis positions
+    if axisYright:
+        ax.yaxis.tick_right()
+        ax.yaxis.set_label_position("right")
+    if axisXtop:
+        ax.xaxis.tick_top()
+        ax.xaxis.set_label_position("top")
+
+    # Plot the RMSF
+    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
+    ax.step(
+        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
+    )
+    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
+    ax.axhline(0, color="grey")
+    if doTitle:
+        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
+
+    # Plot the Gaussian fit
+    if fwhmRMSF is not None:
+        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
+        ax.plot(
+            phiArr,
+            yGauss,
+            color="g",
+            marker="None",
+            mfc="w",
+            mec="g",
+            ms=10,
+            label="Gaussian",
+            lw=2.0,
+            ls="--",
+        )
+
+    # Scaling
+    ax.yaxis.set_major_locator(MaxNLocator(4))
+    ax.xaxis.set_major_locator(MaxNLocator(4))
+    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
+    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
+    ax.set_ylabel("Normalised Units")
+    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
+    ax.axhline(0, color="grey")
+
+    # Format tweaks
+    ax = bwdepol_tweakAxFormat(ax)
+    ax.autoscale_view(True, True, True)
+
+
+def bwdepol_plot_rmsf_fdf_fig(
+    phiArr,
+    FDF,
+    phi2Arr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    gaussParm=[],
+    vLine=None,
+    fig=None,
+    units="flux units",
+):
+    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
+
+    # Default to a pyplot figure
+    if fig == None:
+        fig = plt.figure(figsize=(12.0, 8))
+    # Plot the RMSF
+    ax1 = fig.add_subplot(211)
+    bwdepol_plot_RMSF_ax(
+        ax=ax1,
+        phiArr=phi2Arr,
+        RMSFArr=RMSFArr,
+        peak_rm=peak_rm,
+        fwhmRMSF=fwhmRMSF,
+        doTitle=True,
+    )
+    [label.set_visible(False) for label in ax1.get_xticklabels()]
+    ax1.set_xlabel("")
+
+    ax2 = fig.add_subplot(212, sharex=ax1)
+    plot_dirtyFDF_ax(
+        ax=ax2,
+        phiArr=phiArr,
+        FDFArr=FDF,
+        gaussParm=gaussParm,
+        vLine=vLine,
+        doTitle=True,
+        units=units,
+    )
+    return fig
+
+
+# -----------------------------------------------------------------------------#
+# modified for adjoint
+def bwdepol_get_rmsf_planes(
+    freqArr_Hz,
+    widths_Hz,
+    phiArr_radm2,
+    peak_rm,
+    weightArr=None,
+    mskArr=None,
+    lam0Sq_m2=None,
+    double=True,
+    fitRMSF=True,
+    fitRMSFreal=False,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Calculate the Rotation Measure Spread Function from inputs. This version
+    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+    boolean mask array, where flagged data are True and unflagged data False.
+    If only whole planes (wavelength channels) are flagged then the RMSF is the
+    same for all pixels and the calculation is done once and replicated to the
+    dimensions of the mask. If some isolated voxels are flagged then the RMSF
+    is calculated by looping through each wavelength plane, which can take some
+    time. By default the routine returns the analytical width of the RMSF main
+    lobe but can also use MPFIT to fit a Gaussian.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+
+    Parameters
+    ----------
+    freqArr_Hz      ... vector of frequency values
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is no weighting
+    maskArr         ... cube of mask values used to shape return cube [None]
+    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
+    double          ... pad the Faraday depth to double-size [True]
+    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
+    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
+    nBits           ... precision of data arrays [64]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+
+    Returns
+    -------
+    RMSFcube: array
+              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+              boolean mask array
+
+    phi2Arr: array
+             array of the Faraday Depth (in rad/m^2)
+
+    fwhmRMSFArr: array
+                 fwhm of the RMSF
+
+    statArr: array
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
+    if double:
+        nPhi = phiArr_radm2.shape[0]
+        nExt = np.ceil(nPhi / 2.0)
+        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
+        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
+    else:
+        phi2Arr = phiArr_radm2
+
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Set the mask array (default to 1D, no masked channels)
+    if mskArr is None:
+        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
+        nDims = 1
+    else:
+        mskArr = mskArr.astype("bool")
+        nDims = len(mskArr.shape)
+
+    # Sanity checks on array sizes
+    if not weightArr.shape == freqArr_Hz.shape:
+        log("Err: wavelength^2 and weight arrays must be the same shape.")
+        return None, None, None, None
+    if not nDims <= 3:
+        log("Err: mask dimensions must be <= 3.")
+        return None, None, None, None
+    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
+        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
+        (mskArr.shape[0], freqArr_Hz.shape[-1])
+        log("     Check that the mask is in [z, y, x] order.")
+        return None, None, None, None
+
+    # Reshape the mask array to 3 dimensions
+    if nDims == 1:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
+    elif nDims == 2:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
+
+    # Initialise the complex RM Spread Function cube
+    nX = mskArr.shape[-1]
+    nY = mskArr.shape[-2]
+    nPix = nX * nY
+    nPhi = phi2Arr.shape[0]
+    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
+
+    # If full planes are flagged then set corresponding weights to zero
+    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
+    mskPlanes = np.where(xySum == nPix, 0, 1)
+    weightArr *= mskPlanes
+
+    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
+    flagTotals = np.unique(xySum).tolist()
+    try:
+        flagTotals.remove(0)
+    except Exception:
+        pass
+    try:
+        flagTotals.remove(nPix)
+    except Exception:
+        pass
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Calculate the analytical FWHM width of the main lobe
+    fwhmRMSF = (
+        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
+    )
+
+    # Create simulated data set with simRM = peakRM
+    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
+    # RMSFArr = fdf from bwdepol_simulation
+    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
+        freqArr_Hz,
+        RMSF_data[1],
+        RMSF_data[2],
+        phiArr_radm2,
+        widths_Hz=widths_Hz,
+        weightArr=weightArr,
+        lam0Sq_m2=lam0Sq_m2,
+        verbose=verbose,
+        log=print,
+    )
+
+    # Fit the RMSF main lobe
+    fitStatus = -1
+    if fitRMSF:
+        if verbose:
+            log("Fitting Gaussian to the main lobe.")
+        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
+        if mp is None or mp.status < 1:
+            pass
+            log("Err: failed to fit the RMSF.")
+            log("     Defaulting to analytical value.")
+        else:
+            fwhmRMSF = mp.params[2]
+            fitStatus = mp.status
+
+    # Replicate along X and Y axes
+    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
+    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
+    statArr = np.ones((nY, nX), dtype="int") * fitStatus
+
+    # Remove redundant dimensions
+    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
+    statArr = np.squeeze(statArr)
+    RMSFcube = RMSFcube.reshape(-1)
+
+    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_measure_FDF_parms(
+    FDF,
+    phiArr,
+    fwhmRMSF,
+    adjoint_sens,
+    adjoint_noise,
+    dFDF=None,
+    lamSqArr_m2=None,
+    lam0Sq=None,
+    snrDoBiasCorrect=5.0,
+):
+    """
+    Measure standard parameters from a complex Faraday Dispersion Function.
+    Currently this function assumes that the noise levels in the Stokes Q
+    and U spectra are the same.
+    Returns a dictionary containing measured parameters.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+    """
+
+    # Determine the peak channel in the FDF, its amplitude and index
+    absFDF = np.abs(FDF)
+    rm_fdf = (
+        absFDF / adjoint_noise
+    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
+    amp_fdf = (
+        absFDF / adjoint_sens
+    )  # RM spectrum normalized by (RM-dependent) sensitivity
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
+
+    # new theoretical dFDF correction for adjoint method
+    # This is noise in the adjoint-spectrum.
+    dFDF = adjoint_noise[indxPeakPIchan]
+
+    # This is the error in the amplitude (accounting for re-normalization)
+    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
+
+    # Measure the RMS noise in the spectrum after masking the peak
+    # changed all absFDF to rm_fdf
+    # Since this is normalized by theoretical noise, it's effectively testing
+    # the noise relative to the theoretical noise.
+    dPhi = np.nanmin(np.diff(phiArr))
+    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
+    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
+    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
+    absFDFmsked = rm_fdf.copy()
+    absFDFmsked[iL:iR] = np.nan
+    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
+    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
+        dFDFcorMAD = MAD(rm_fdf)
+    else:
+        dFDFcorMAD = MAD(absFDFmsked)
+
+    # The noise is re-normalized by the predicted noise at the peak RM.
+    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
+
+    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
+    varLamSqArr_m2 = (
+        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
+    ) / (nChansGood - 1)
+
+    # Determine the peak in the FDF, its amplitude and Phi using a
+    # 3-point parabolic interpolation
+    phiPeakPIfit = None
+    dPhiPeakPIfit = None
+    ampPeakPIfit = None
+    snrPIfit = None
+    ampPeakPIfitEff = None
+    indxPeakPIfit = None
+    peakFDFimagFit = None
+    peakFDFrealFit = None
+    polAngleFit_deg = None
+    dPolAngleFit_deg = None
+    polAngle0Fit_deg = None
+    dPolAngle0Fit_deg = None
+
+    # Only do the 3-point fit if peak is 1-channel from either edge
+    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
+        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
+            phiArr[indxPeakPIchan - 1],
+            amp_fdf[indxPeakPIchan - 1],
+            phiArr[indxPeakPIchan],
+            amp_fdf[indxPeakPIchan],
+            phiArr[indxPeakPIchan + 1],
+            amp_fdf[indxPeakPIchan + 1],
+        )
+
+        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
+
+        # Error on fitted Faraday depth (RM) is same as channel
+        # but using fitted PI
+        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
+
+        # Correct the peak for polarisation bias (POSSUM report 11)
+        ampPeakPIfitEff = ampPeakPIfit
+        if snrPIfit >= snrDoBiasCorrect:
+            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
+
+        # Calculate the polarisation angle from the fitted peak
+        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
+        indxPeakPIfit = np.interp(
+            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
+        )
+        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
+        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
+        polAngleFit_deg = (
+            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
+        )
+        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
+
+        # Calculate the derotated polarisation angle and uncertainty
+        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
+        polAngle0Fit_deg = (
+            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
+        ) % 180
+        dPolAngle0Fit_rad = np.sqrt(
+            nChansGood
+            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
+            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
+        )
+        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
+
+    # Store the measurements in a dictionary and return
+    mDict = {
+        "dFDFcorMAD": toscalar(dFDFcorMAD),
+        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
+        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
+        "ampPeakPIfit": toscalar(ampPeakPIfit),
+        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
+        "dAmpPeakPIfit": toscalar(dampPeakPI),
+        "snrPIfit": toscalar(snrPIfit),
+        "indxPeakPIfit": toscalar(indxPeakPIfit),
+        "peakFDFimagFit": toscalar(peakFDFimagFit),
+        "peakFDFrealFit": toscalar(peakFDFrealFit),
+        "polAngleFit_deg": toscalar(polAngleFit_deg),
+        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
+        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
+        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
+    }
+
+    return mDict
+
+
+# -----------------------------------------------------------------------------#
+def do_adjoint_rmsynth_planes(
+    freqArr_Hz,
+    dataQ,
+    dataU,
+    phiArr_radm2,
+    widths_Hz=None,
+    weightArr=None,
+    lam0Sq_m2=None,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
+    of the routine loops through spectral planes and is faster than the pixel-
+    by-pixel code. This version also correctly deals with isolated clumps of
+    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
+    but possible in single-dish cubes). Input data must be in standard python
+    [z,y,x] order, where z is the frequency axis in ascending order.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+    Parameters
+    ----------
+    dataQ           ... 1, 2 or 3D Stokes Q data array
+    dataU           ... 1, 2 or 3D Stokes U data array
+    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
+    nBits           ... precision of data arrays [32]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+    Returns
+    -------
+    FDFcube: array
+             Faraday Dispersion Function (FDF)
+
+    lam0Sq_m2: array
+               lam0Sq_m2 is the weighted mean of lambda^2 distribution
+               (B&dB Eqn. 32)
+
+    adjoint_vars: list
+                  information to generate theoretical noise, sensitivity
+                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
+                                  weightArr]
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Sanity check on array sizes
+    if not weightArr.shape == lambdaSqArr_m2.shape:
+        log("Err: Lambda^2 and weight arrays must be the same shape.")
+        return None, None
+    if not dataQ.shape == dataU.shape:
+        log("Err: Stokes Q and U data arrays must be the same shape.")
+        return None, None
+    nDims = len(dataQ.shape)
+    if not nDims <= 3:
+        log("Err: data dimensions must be <= 3.")
+        return None, None
+    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
+        log(
+            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
+                dataQ.shape[0], lambdaSqArr_m2.shape[0]
+            ),
+            end=" ",
+        )
+        log("     Check that data is in [z, y, x] order.")
+        return None, None
+
+    # Reshape the data arrays to 3 dimensions
+    if nDims == 1:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
+    elif nDims == 2:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
+
+    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
+    # Array has dimensions [nFreq, nY, nX]
+    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
+
+    # Check for NaNs (flagged data) in the cube & set to zero
+    mskCube = np.isnan(pCube)
+    pCube = np.nan_to_num(pCube)
+
+    # If full planes are flagged then set corresponding weights to zero
+    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
+    mskPlanes = np.where(mskPlanes == 0, 0, 1)
+    weightArr *= mskPlanes
+
+    # Initialise the complex Faraday Dispersion Function cube
+    nX = dataQ.shape[-1]
+    nY = dataQ.shape[-2]
+    nPhi = phiArr_radm2.shape[0]
+    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
+
+    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
+    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
+    K = 1.0 / np.sum(weightArr)
+    if lam0Sq_m2 is None:
+        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
+
+    # The K value used to scale each FDF spectrum must take into account
+    # flagged voxels data in the datacube and can be position dependent
+    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
+    with np.errstate(divide="ignore", invalid="ignore"):
+        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
+        KArr[KArr == np.inf] = 0
+        KArr = np.nan_to_num(KArr)
+
+    # Do the RM-synthesis on each plane
+    if verbose:
+        log("Running RM-synthesis by channel.")
+        progress(40, 0)
+
+    # calculate channel widths if necessary
+    if widths_Hz == None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+    for i in range(nPhi):
+        if verbose:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
+            :, np.newaxis, np.newaxis
+        ]
+        arg0 = pCube * cor * np.conj(r_i)
+        arg = arg0
+        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
+
+    # information to generate theoretical noise, sensitivity
+    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    # Remove redundant dimensions in the FDF array
+    FDFcube = np.squeeze(FDFcube)
+    return FDFcube, lam0Sq_m2, adjoint_vars
+
+
+# -----------------------------------------------------------------------------#
+def run_adjoint_rmsynth(
+    data,
+    polyOrd=3,
+    phiMax_radm2=None,
+    dPhi_radm2=None,
+    nSamples=10.0,
+    weightType="variance",
+    fitRMSF=True,
+    noStokesI=False,
+    phiNoise_radm2=1e6,
+    nBits=64,
+    showPlots=False,
+    debug=False,
+    verbose=False,
+    log=print,
+    units="Jy/beam",
+):
+    """Run bwdepol RM synthesis on 1D data.
+
+    Args:
+        data (list): Contains frequency and polarization data as either:
+            [freq_Hz, I, Q, U, dI, dQ, dU]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                I (array_like): Stokes I intensity in each channel.
+                Q (array_like): Stokes Q intensity in each channel.
+                U (array_like): Stokes U intensity in each channel.
+                dI (array_like): Error in Stokes I intensity in each channel.
+                dQ (array_like): Error in Stokes Q intensity in each channel.
+                dU (array_like): Error in Stokes U intensity in each channel.
+            or
+            [freq_Hz, q, u,  dq, du]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
+                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
+                dq (array_like): Error in fractional Stokes Q intensity in each channel.
+                du (array_like): Error in fractional Stokes U intensity in each channel.
+
+    Kwargs:
+        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
+        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
+        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
+        nSamples (float): Number of samples across the RMSF.
+        weightType (str): Can be "variance" or "uniform"
+            "variance" -- Weight by uncertainty in Q and U.
+            "uniform" -- Weight uniformly (i.e. with 1s)
+        fitRMSF (bool): Fit a Gaussian to the RMSF?
+        noStokesI (bool: Is Stokes I data provided?
+        phiNoise_radm2 (float): ????
+        nBits (int): Precision of floating point numbers.
+        showPlots (bool): Show plots?
+        debug (bool): Turn on debugging messages & plots?
+        verbose (bool): Verbosity.
+        log (function): Which logging function to use.
+        units (str): Units of data.
+
+    Returns:
+        mDict (dict): Summary of RM synthesis results.
+        aDict (dict): Data output by RM synthesis.
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    #    dtComplex = "complex" + str(2*nBits)
+
+    # freq_Hz, I, Q, U, dI, dQ, dU
+    if data.shape[0] == 7:
+        if verbose:
+            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
+        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+        widths_Hz = None
+    elif data.shape[0] == 8:
+        if verbose:
+            log(
+                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+    elif data.shape[0] == 6:
+        if verbose:
+            log(
+                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
+    elif data.shape[0] == 5:
+        if verbose:
+            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
+        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
+        widths_Hz = None
+        noStokesI = True
+    else:
+        log("Failed to read in data, aborting.")
+        if debug:
+            log(traceback.format_exc())
+        sys.exit(1)
+    if verbose:
+        log("Successfully read in the Stokes spectra.")
+
+    # If no Stokes I present, create a dummy spectrum = unity
+    if noStokesI:
+        if verbose:
+            log("Warn: no Stokes I data in use.")
+        IArr = np.ones_like(QArr)
+        dIArr = np.zeros_like(QArr)
+
+    # Convert to GHz for convenience
+    freqArr_GHz = freqArr_Hz / 1e9
+    dQUArr = (dQArr + dUArr) / 2.0
+
+    # Fit the Stokes I spectrum and create the fractional spectra
+    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
+        freqArr=freqArr_GHz,
+        IArr=IArr,
+        QArr=QArr,
+        UArr=UArr,
+        dIArr=dIArr,
+        dQArr=dQArr,
+        dUArr=dUArr,
+        polyOrd=polyOrd,
+        verbose=True,
+        debug=debug,
+    )
+
+    # Plot the data and the Stokes I model fit
+    if showPlots:
+        if verbose:
+            log("Plotting the input data and spectral index fit.")
+        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
+        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        specFig = plt.figure(figsize=(12.0, 8))
+        plot_Ipqu_spectra_fig(
+            freqArr_Hz=freqArr_Hz,
+            IArr=IArr,
+            qArr=qArr,
+            uArr=uArr,
+            dIArr=dIArr,
+            dqArr=dqArr,
+            duArr=duArr,
+            freqHirArr_Hz=freqHirArr_Hz,
+            IModArr=IModHirArr,
+            fig=specFig,
+            units=units,
+        )
+
+        # DEBUG (plot the Q, U and average RMS spectrum)
+        if debug:
+            rmsFig = plt.figure(figsize=(12.0, 8))
+            ax = rmsFig.add_subplot(111)
+            ax.plot(
+                freqArr_Hz / 1e9,
+                dQUArr,
+                marker="o",
+                color="k",
+                lw=0.5,
+                label="rms <QU>",
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
+            )
+            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
+            ax.set_xlim(
+                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
+                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
+            )
+            ax.set_xlabel(r"$\nu$ (GHz)")
+            ax.set_ylabel("RMS " + units)
+            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
+
+    # Calculate some wavelength parameters
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
+    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
+    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+
+    # Set the Faraday depth range
+    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
+    if dPhi_radm2 is None:
+        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
+    if phiMax_radm2 is None:
+        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
+        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
+
+    # Faraday depth sampling. Zero always centred on middle channel
+    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
+    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
+    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
+    if verbose:
+        log(
+            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
+            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
+        )
+
+    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
+    if weightType == "variance":
+        weightArr = 1.0 / np.power(dQUArr, 2.0)
+    else:
+        weightType = "uniform"
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    if verbose:
+        log("Weight type is '%s'." % weightType)
+
+    startTime = time.time()
+
+    # Perform adjoint RM-synthesis on the spectrum
+    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        dataQ=qArr,
+        dataU=uArr,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+    )
+
+    # generate adjoint_noise and adjoint__sens
+    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
+    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
+
+    # calculate peak RM
+    absFDF = np.abs(dirtyFDF)
+    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
+    peak_rm = phiArr_radm2[indxPeakPIchan]
+
+    # Calculate the Rotation Measure Spread Function
+    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        mskArr=~np.isfinite(qArr),
+        lam0Sq_m2=lam0Sq_m2,
+        double=True,
+        fitRMSF=fitRMSF,
+        fitRMSFreal=False,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+        peak_rm=peak_rm,
+    )
+    fwhmRMSF = float(fwhmRMSFArr)
+    endTime = time.time()
+    cputime = endTime - startTime
+    if verbose:
+        log("> RM-synthesis completed in %.2f seconds." % cputime)
+
+    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
+    # Multiply the dirty FDF by Ifreq0 to recover the PI
+    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
+    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
+
+    # Calculate the theoretical noise in the FDF !!
+    # Old formula only works for wariance weights!
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    dFDFth = np.sqrt(
+        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
+    )
+
+    # Measure the parameters of the dirty FDF
+    # Use the theoretical noise to calculate uncertainties
+
+    mDict = bwdepol_measure_FDF_parms(
+        FDF=dirtyFDF,
+        phiArr=phiArr_radm2,
+        fwhmRMSF=fwhmRMSF,
+        adjoint_sens=adjoint_sens,
+        adjoint_noise=adjoint_noise,
+        dFDF=dFDFth,
+        lamSqArr_m2=lambdaSqArr_m2,
+        lam0Sq=lam0Sq_m2,
+    )
+
+    mDict["Ifreq0"] = toscalar(Ifreq0)
+    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
+    mDict["IfitStat"] = fit_result.fitStatus
+    mDict["IfitChiSqRed"] = fit_result.chiSqRed
+    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
+    mDict["freq0_Hz"] = toscalar(freq0_Hz)
+    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
+    mDict["dQU"] = toscalar(nanmedian(dQUArr))
+    # mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["units"] = units
+
+    if fit_result.fitStatus >= 128:
+        log("WARNING: Stokes I model contains negative values!")
+    elif fit_result.fitStatus >= 64:
+        log("Caution: Stokes I model has low signal-to-noise.")
+
+    # Add information on nature of channels:
+    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
+    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
+    mDict["N_channels"] = good_channels.size
+    if widths_Hz != None:
+        mDict["median_channel_width"] = float(np.median(widths_Hz))
+    else:
+        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+
+    # Measure the complexity of the q and u spectra
+    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
+    mD, pD = measure_qu_complexity(
+        freqArr_Hz=freqArr_Hz,
+        qArr=qArr,
+        uArr=uArr,
+        dqArr=dqArr,
+        duArr=duArr,
+        fracPol=mDict["fracPol"],
+        psi0_deg=mDict["polAngle0Fit_deg"],
+        RM_radm2=mDict["phiPeakPIfit_rm2"],
+    )
+    mDict.update(mD)
+
+    # Debugging plots for spectral complexity measure
+    if debug:
+        tmpFig = plot_complexity_fig(
+            xArr=pD["xArrQ"],
+            qArr=pD["yArrQ"],
+            dqArr=pD["dyArrQ"],
+            sigmaAddqArr=pD["sigmaAddArrQ"],
+            chiSqRedqArr=pD["chiSqRedArrQ"],
+            probqArr=pD["probArrQ"],
+            uArr=pD["yArrU"],
+            duArr=pD["dyArrU"],
+            sigmaAdduArr=pD["sigmaAddArrU"],
+            chiSqReduArr=pD["chiSqRedArrU"],
+            probuArr=pD["probArrU"],
+            mDict=mDict,
+        )
+        tmpFig.show()
+
+    # add array dictionary
+    aDict = dict()
+    aDict["phiArr_radm2"] = phiArr_radm2
+    aDict["phi2Arr_radm2"] = phi2Arr_radm2
+    aDict["RMSFArr"] = RMSFArr
+    aDict["freqArr_Hz"] = freqArr_Hz
+    aDict["weightArr"] = weightArr
+    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
+
+    if verbose:
+        # Print the results to the screen
+        log()
+        log("-" * 80)
+        log("RESULTS:\n")
+        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
+
+        log(
+            "Pol Angle = %.4g (+/-%.4g) deg"
+            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
+        )
+        log(
+            "Pol Angle 0 = %.4g (+/-%.4g) deg"
+            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
+        )
+        log(
+            "Peak FD = %.4g (+/-%.4g) rad/m^2"
+            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
+        )
+        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
+        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
+        log(
+            "Peak PI = %.4g (+/-%.4g) %s"
+            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
+        )
+        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (toscalar(dFDFth), units))
+        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
+        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
+        log(
+            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
+            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
+        )
+        log()
+        log("-" * 80)
+
+    # Plot the RM Spread Function and dirty FDF
+    if showPlots:
+        plot_adjoint_info(adjoint_info, units=units)
+        fdfFig = plt.figure(figsize=(12.0, 8))
+        bwdepol_plot_rmsf_fdf_fig(
+            phiArr=phiArr_radm2,
+            FDF=(dirtyFDF / adjoint_sens),
+            phi2Arr=phiArr_radm2,
+            RMSFArr=RMSFArr,
+            peak_rm=peak_rm,
+            fwhmRMSF=fwhmRMSF,
+            vLine=mDict["phiPeakPIfit_rm2"],
+            fig=fdfFig,
+            units=units,
+        )
+
+    if showPlots or debug:
+        plt.show()
+
+    return mDict, aDict
+
+
+# -----------------------------------------------------------------------------#
+def main():
+    """
+    Start the function to perform bwdepol RM-synthesis if called from the command line.
+    """
+
+    # Help string to be shown using the -h option
+    descStr = """
+    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
+    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
+
+    Behaves similarly to rmsynth1d except that the input file can optionally
+    contain a column with the channel widths in Hz. If this column is not
+    given, the channel widths will be assumed to be uniform and calculated
+    based on the difference between the frequencies of the first two channels.
+
+    The ASCII file requires one of the following column configurations,
+    depending on whether Stokes I and channel width information are available,
+    in a space separated format:
+    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, Q, U, Q_err, U_err]
+    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
+
+
+    To get outputs, one or more of the following flags must be set: -S, -p, -v.
+    """
+
+    epilog_text = """
+    Outputs with -S flag:
+    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
+    _RMSF.dat: Computed RMSF [Phi, Q, U]
+    _RMsynth.dat: list of derived parameters for RM spectrum
+                (approximately equivalent to -v flag output)
+    _RMsynth.json: dictionary of derived parameters for RM spectrum
+    _weight.dat: Calculated channel weights [freq_Hz, weight]
+    """
+
+    # Parse the command line options
+    parser = argparse.ArgumentParser(
+        description=descStr,
+        epilog=epilog_text,
+        formatter_class=argparse.RawTextHelpFormatter,
+    )
+    parser.add_argument(
+        "dataFile",
+        metavar="dataFile.dat",
+        nargs=1,
+        help="ASCII file containing Stokes spectra & errors.",
+    )
+    parser.add_argument(
+        "-t",
+        dest="fitRMSF",
+        action="store_false",
+        help="fit a Gaussian to the RMSF [True; set flag to disable]",
+    )
+    parser.add_argument(
+        "-l",
+        dest="phiMax_radm2",
+        type=float,
+        default=None,
+        help="absolute max Faraday depth sampled [Auto].",
+    )
+    parser.add_argument(
+        "-d",
+        dest="dPhi_radm2",
+        type=float,
+        default=None,
+        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
+    )
+    parser.add_argument(
+        "-s",
+        dest="nSamples",
+        type=float,
+        default=10,
+        help="number of samples across the RMSF lobe [10].",
+    )
+    parser.add_argument(
+        "-w",
+        dest="weightType",
+        default="variance",
+        help="weighting [inverse variance] or 'uniform' (all 1s).",
+    )
+    parser.add_argument(
+        "-o",
+        dest="polyOrd",
+        type=int,
+        default=2,
+        help="polynomial order to fit to I spectrum [2].",
+    )
+    parser.add_argument(
+        "-i",
+        dest="noStokesI",
+        action="store_true",
+        help="ignore the Stokes I spectrum [False].",
+    )
+    parser.add_argument(
+        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
+    )
+    parser.add_argument(
+        "-v", dest="verbose", action="store_true", help="verbose output [False]."
+    )
+    parser.add_argument(
+        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
+    )
+    parser.add_argument(
+        "-D",
+        dest="debug",
+        action="store_true",
+        help="turn on debugging messages & plots [False].",
+    )
+    parser.add_argument(
+        "-U",
+        dest="units",
+        type=str,
+        default="Jy/beam",
+        help="Intensity units of the data. [Jy/beam]",
+    )
+    args = parser.parse_args()
+
+    # Sanity checks
+    if not os.path.exists(args.dataFile[0]):
+        print("File does not exist: '%s'." % args.dataFile[0])
+        sys.exit(1)
+    prefixOut, ext = os.path.splitext(args.dataFile[0])
+    dataDir, dummy = os.path.split(args.dataFile[0])
+    # Set the floating point precision
+    nBits = 64
+
+    # Read in the data. Don't parse until inside the first function.
+    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
+
+    # Run (modified) RM-synthesis on the spectra
+    mDict, aDict = run_adjoint_rmsynth(
+        data=data,
+        polyOrd=args.polyOrd,
+        phiMax_radm2=args.phiMax_radm2,
+        dPhi_radm2=args.dPhi_radm2,
+        nSamples=args.nSamples,
+        weightType=args.weightType,
+        fitRMSF=args.fitRMSF,
+        noStokesI=args.noStokesI,
+        nBits=nBits,
+        showPlots=args.showPlots,
+        debug=args.debug,
+        verbose=args.verbose,
+        units=args.units,
+    )
+
+    if args.saveOutput:
+        saveOutput(mDict, aDict, prefixOut, args.verbose)
+
+
+# -----------------------------------------------------------------------------#
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 6e4694398615cf3cf6de9c82b2e531897fa89176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 12/45] fix: tolerate the output directory being created by
 another process meanwhile

---
 RMtools_1D/mk_test_ascii_data.py | 2 +-
 RMtools_3D/RMpeakfit_3D.py       | 2 +-
 RMtools_3D/mk_test_cube_data.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/mk_test_ascii_data.py b/RMtools_1D/mk_test_ascii_data.py
index a9ea4cf..2a53673 100755
--- a/RMtools_1D/mk_test_ascii_data.py
+++ b/RMtools_1D/mk_test_ascii_data.py
@@ -308,7 +308,7 @@ def create_IQU_ascii_data(
     dataPath = dataPath.rstrip("/")
     print("Creating test dataset in '%s/'" % dataPath)
     if not Path(dataPath).exists():
-        Path(dataPath).mkdir(parents=True)
+        Path(dataPath).mkdir(parents=True, exist_ok=True)
 
     # dirs = dataPath.split("/")
     # print(dirs)
diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 31cf5a9..4386eb5 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -224,7 +224,7 @@ def save_maps(map_dict, prefix_path, FDFheader):
 
     # Check that directory exists (in case it is requested to save maps to new subdirectory):
     if not os.path.exists(os.path.dirname(prefix_path)):
-        os.mkdir(os.path.dirname(prefix_path))
+        os.makedirs(os.path.dirname(prefix_path), exist_ok=True)
 
     # per product, customize FITS header as needed and save file
     for product in map_dict.keys():
diff --git a/RMtools_3D/mk_test_cube_data.py b/RMtools_3D/mk_test_cube_data.py
index a2acbf3..b3799de 100644
--- a/RMtools_3D/mk_test_cube_data.py
+++ b/RMtools_3D/mk_test_cube_data.py
@@ -314,7 +314,7 @@ def create_IQU_cube_data(
     catInLst = csv_read_to_list(inCatFile, doFloat=True)
     print("Found %d entries in the catalogue." % len(catInLst))
     if not Path(dataPath).exists():
-        Path(dataPath).mkdir(parents=True)
+        Path(dataPath).mkdir(parents=True, exist_ok=True)
 
     # # Create the output directory path
     # dirs = dataPath.rstrip("/").split("/")
-- 
2.43.0


From 8a63d9c1548f67347f1d982b67498d60e12eecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 13/45] fix: accept channel widths in rmtools_bwdepol (array
 compared with == None)

---
 RMtools_1D/rmtools_bwdepol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ff592da..70a2dbc 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -307,7 +307,7 @@ def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
          [freq_Hz, q, u,  dq, du]
 
     """
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
 
     p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
@@ -935,7 +935,7 @@ def do_adjoint_rmsynth_planes(
         progress(40, 0)
 
     # calculate channel widths if necessary
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
     for i in range(nPhi):
         if verbose:
@@ -1260,7 +1260,7 @@ def run_adjoint_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
+    if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
         mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-- 
2.43.0


From 4acc9aef44ac6d0956e0cf30802161168766308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 14/45] fix: 3DIrescale ignores coefficient maps left over from
 a fit of higher order

---
 RMtools_3D/rescale_I_model_3D.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..875800d 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -47,6 +47,7 @@
 import argparse
 import multiprocessing as mp
 import os
+import re
 from functools import partial
 
 import astropy.io.fits as pf
@@ -186,6 +187,16 @@ def command_line():
     )
 
 
+def get_fit_order(header):
+    """Gets the (maximum) polynomial order of a Stokes I model from the header
+    of its maps. A previous fit of higher order may have left maps behind."""
+    lines = [card for card in header.get("HISTORY", []) if "Fit model is" in card]
+    match = re.search(r"max order (\d+)|(\d+)-order", lines[-1]) if lines else None
+    if match is None:
+        return 5
+    return int(match.group(1) or match.group(2))
+
+
 def read_data(basename):
     """Reads the covariance matrix map, (current) reference frequency map, and
     (current) coefficient+error maps.
@@ -211,7 +222,7 @@ def read_data(basename):
     # Get coefficient maps (without knowing how many there are)
     # Reverse index order to match RM-Tools internal ordering (highest to lowest polynomial order)
     coeffs = np.zeros((6, *old_reffreq_map.shape), dtype=covar_map.dtype)
-    for i in range(6):
+    for i in range(get_fit_order(header) + 1):
         try:  # Keep trying higher orders
             data = pf.getdata(basename + f"coeff{i}.fits")
             coeffs[5 - i] = data
-- 
2.43.0


From 4c9d375ac65b4c3433ed97d8e9d8bd7c8c30899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 15/45] fix: 3DIrescale refuses an incomplete set of
 coefficient maps

---
 RMtools_3D/rescale_I_model_3D.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index 875800d..f46dd22 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -193,7 +193,7 @@ def get_fit_order(header):
     lines = [card for card in header.get("HISTORY", []) if "Fit model is" in card]
     match = re.search(r"max order (\d+)|(\d+)-order", lines[-1]) if lines else None
     if match is None:
-        return 5
+        return None
     return int(match.group(1) or match.group(2))
 
 
@@ -222,11 +222,14 @@ def read_data(basename):
     # Get coefficient maps (without knowing how many there are)
     # Reverse index order to match RM-Tools internal ordering (highest to lowest polynomial order)
     coeffs = np.zeros((6, *old_reffreq_map.shape), dtype=covar_map.dtype)
-    for i in range(get_fit_order(header) + 1):
+    fit_order = get_fit_order(header)
+    for i in range(6 if fit_order is None else fit_order + 1):
         try:  # Keep trying higher orders
             data = pf.getdata(basename + f"coeff{i}.fits")
             coeffs[5 - i] = data
         except FileNotFoundError:
+            if fit_order is not None:
+                raise  # The fit had this term, so the model is incomplete
             break  # Once it runs out of valid coefficient maps, move on
 
     return covar_map, old_reffreq_map, coeffs, header
-- 
2.43.0


From 1dd2f6c83f8dbdc0b88bdaaa1e2384827f025426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 16/45] fix: peakfitcube refuses an empty frequency file
 instead of writing blank maps

---
 RMtools_3D/RMpeakfit_3D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 4386eb5..676af69 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -290,6 +290,8 @@ def read_files(FDF_filename, freq_filename):
     lam0Sq = head["LAMSQ0"]
 
     freqArr_Hz = np.loadtxt(freq_filename, dtype=float)
+    if freqArr_Hz.size == 0:
+        raise Exception(f"No frequencies found in {freq_filename}.")
     lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
 
     phiArr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1)
-- 
2.43.0


From 6a7aa0e3e42af8b6760e3b4eb68117c0a93facc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 17/45] fix: 3D tools keep image axes of length 1
 (one-pixel-wide images and chunks)

---
 RMtools_3D/RMpeakfit_3D.py  | 11 ++++++++---
 RMtools_3D/do_RMclean_3D.py | 24 +++++++++++++-----------
 RMtools_3D/do_RMsynth_3D.py | 10 ++++++++--
 RMtools_3D/do_fitIcube.py   |  3 +--
 4 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 676af69..fbf3eaf 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -284,8 +284,13 @@ def read_files(FDF_filename, freq_filename):
     if FD_axis != Ndim:
         complex_cube = np.moveaxis(complex_cube, Ndim - FD_axis, 0)
 
-    # Remove degenerate axes to prevent problems with later steps.
-    complex_cube = complex_cube.squeeze()
+    # Remove degenerate axes to prevent problems with later steps, but keep
+    # image axes of length 1.
+    cube_shape = (complex_cube.shape[0],) + complex_cube.shape[-2:]
+    if complex_cube.size == np.prod(cube_shape):
+        complex_cube = complex_cube.reshape(cube_shape)
+    else:
+        complex_cube = complex_cube.squeeze()
 
     lam0Sq = head["LAMSQ0"]
 
@@ -306,7 +311,7 @@ def read_files(FDF_filename, freq_filename):
         "readonly",
         memmap=True,
     )
-    fwhmRMSF = HDUfwhm[0].data.squeeze()
+    fwhmRMSF = HDUfwhm[0].data.reshape(complex_cube.shape[1:])
 
     return complex_cube, phiArr_radm2, fwhmRMSF, lambdaSqArr_m2, lam0Sq, head
 
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 6a3f482..6651685 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -147,20 +147,22 @@ def run_rmclean(
 
     # Move FD axis back to original position, and restore dimensionality:
     old_Ndim, FD_axis = find_axes(head)
-    new_Ndim = cleanFDF.ndim
-    # The difference is the number of dimensions that need to be added:
-    if old_Ndim - new_Ndim != 0:  # add missing (degenerate) dimensions back in
-        cleanFDF = np.expand_dims(cleanFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-        ccArr = np.expand_dims(ccArr, axis=tuple(range(old_Ndim - new_Ndim)))
-        residFDF = np.expand_dims(residFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-    # New dimensions are added to the beginning of the axis ordering
-    # (revserse of FITS ordering)
+    # Add missing (degenerate) dimensions back in, wherever they were.
+    # (reverse of FITS ordering, with the FD axis first)
+    other_axes = [
+        head["NAXIS" + str(i)] for i in range(old_Ndim, 0, -1) if i != FD_axis
+    ]
+    cleanFDF = np.reshape(cleanFDF, [cleanFDF.shape[0]] + other_axes)
+    ccArr = np.reshape(ccArr, [ccArr.shape[0]] + other_axes)
+    residFDF = np.reshape(residFDF, [residFDF.shape[0]] + other_axes)
+    if iterCountArr.size == np.prod(other_axes[-2:]):
+        iterCountArr = np.reshape(iterCountArr, other_axes[-2:])
 
     # Move the FDF axis to it's original spot. Hopefully this means that all
     # axes are in their original place after all of that.
-    cleanFDF = np.moveaxis(cleanFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    ccArr = np.moveaxis(ccArr, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    residFDF = np.moveaxis(residFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
+    cleanFDF = np.moveaxis(cleanFDF, 0, old_Ndim - FD_axis)
+    ccArr = np.moveaxis(ccArr, 0, old_Ndim - FD_axis)
+    residFDF = np.moveaxis(residFDF, 0, old_Ndim - FD_axis)
 
     return cleanFDF, ccArr, iterCountArr, residFDF, head
 
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index eda4606..ac4de74 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -248,7 +248,8 @@ def run_rmsynth(
             Ifreq0Arr = dataI[idx, :, :]
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
-        FDFcube *= Ifreq0Arr
+        # (the FDF cube has lost its image axes of length 1)
+        FDFcube *= np.reshape(Ifreq0Arr, FDFcube.shape[1:])
 
     if not_rmsf:  # only RMsynth
         dataArr = [FDFcube, phiArr_radm2, lam0Sq_m2, lambdaSqArr_m2]
@@ -767,7 +768,12 @@ def readFitsCube(file, verbose, log=print):
         data = np.moveaxis(data, N_dim - freq_axis, 0)
 
     if N_dim >= 4:
-        data = np.squeeze(data)  # Remove degenerate axes
+        # Remove degenerate axes, but keep image axes of length 1 (e.g. in chunks)
+        cube_shape = (data.shape[0],) + data.shape[-2:]
+        if data.size == np.prod(cube_shape):
+            data = np.reshape(data, cube_shape)
+        else:
+            data = np.squeeze(data)
 
     if verbose:
         print("Dimensions of the input array are: ", data.shape)
diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 99f56c5..dbc4473 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -515,10 +515,9 @@ def make_model_I(
 
     coeffs = np.array([mskArr] * 6, dtype=dtFloat)
     coeffs_error = np.array([mskArr] * 6, dtype=dtFloat)
-    reffreq = np.squeeze(np.array([mskArr], dtype=dtFloat))
+    reffreq = np.array(mskArr, dtype=dtFloat)
 
     covars = np.array([[mskArr] * 6] * 6, dtype=dtFloat)
-    datacube = np.squeeze(datacube)
 
     # Select only the spectra with emission
     srcData = np.rot90(datacube[:, mskSrc > 0])
-- 
2.43.0


From b4f43e3279a6fa9beb5734724dde87c6b1d7d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 18/45] fix: assemblechunks takes exactly the chunks of one
 division of the image

---
 RMtools_3D/assemble_chunks.py | 43 ++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index 8741c03..ad14b6d 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -11,7 +11,7 @@ output files from 3D RM synthesis back into larger cubes.
 
 import argparse
 import re
-from glob import glob
+from glob import escape, glob
 from math import ceil
 
 import astropy.io.fits as pf
@@ -56,14 +56,14 @@ def main():
 
     args = parser.parse_args()
 
+    # The chunk number is the last '.C??.' in the name
+    name_parts = re.fullmatch(r"(.*)\.C(\d+)\.(.*)", args.chunkname, re.DOTALL)
+    if name_parts is None:
+        raise Exception("The name of the input chunk has no chunk number (.C??.)!")
+    name_start, number, name_end = name_parts.groups()
+
     if args.output == None:
-        output_filename = ".".join(
-            [
-                x
-                for x in args.chunkname.split(".")
-                if not (x.startswith("C") and x[1:].isnumeric())
-            ]
-        )
+        output_filename = name_start + "." + name_end
     else:
         output_filename = args.output
 
@@ -73,10 +73,11 @@ def main():
         args.memmap = True
 
     # Get all the chunk filenames. Missing chunks will break things!
-    filename = re.search("\.C\d+\.", args.chunkname)
-    chunkfiles = glob(
-        args.chunkname[0 : filename.start()] + ".C*." + args.chunkname[filename.end() :]
-    )
+    chunkfiles = [
+        x
+        for x in glob(escape(name_start) + ".C*." + escape(name_end))
+        if x[len(name_start) + 2 : len(x) - len(name_end) - 1].isdecimal()
+    ]
     chunkfiles.sort()
 
     old_header = pf.getheader(chunkfiles[0])
@@ -92,9 +93,25 @@ def main():
             "Right now this code only supports FITS files with 2-4 dimensions!"
         )
 
-    if len(chunkfiles) != num_chunks:
+    # Chunks may be missing, or left over from another division of the image.
+    if chunkfiles != [
+        f"{name_start}.C{i:0{len(number)}d}.{name_end}" for i in range(num_chunks)
+    ]:
         raise Exception("Number of chunk files found does not match expectations!")
 
+    for i, file in enumerate(chunkfiles):
+        head = pf.getheader(file)
+        if (
+            head["NAXIS1"] != min(Nperchunk, Npix_image - i * Nperchunk)
+            or (head["OLDXDIM"], head["OLDYDIM"]) != (x_dim, y_dim)
+            or head["NAXIS"] != Ndim
+            or any(
+                head[f"NAXIS{ii}"] != old_header[f"NAXIS{ii}"]
+                for ii in range(2, Ndim + 1)
+            )
+        ):
+            raise Exception(f"Chunk {file} does not fit to the others!")
+
     new_header = old_header.copy()
     del new_header["OLDXDIM"]
     del new_header["OLDYDIM"]
-- 
2.43.0


From d15daa0742787022bbf0b1138b35c35a4d692c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 19/45] fix: extract_region honours -1 limits, clips axis 3
 limits, refuses boxes outside the image

---
 RMtools_3D/extract_region.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 46b9d66..9d124fe 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,10 +98,10 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
+    if box[0] > box[1] and box[1] != -1:
         raise Exception("Box dimensions incorrect! x_max < x_min!")
 
-    if box[2] > box[3]:
+    if box[2] > box[3] and box[3] != -1:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
     hdu = pf.open(args.infile, memmap=True)
@@ -150,6 +150,15 @@ def main():
         box[2] = 1
     if (box[3] == -1) or (box[3] > header["NAXIS2"]):
         box[3] = header["NAXIS2"]
+    if cube_axis > 2:
+        if zlim[0] < 1:
+            zlim[0] = 1
+        if (zlim[1] == -1) or (zlim[1] > header["NAXIS" + str(cube_axis)]):
+            zlim[1] = header["NAXIS" + str(cube_axis)]
+        if zlim[0] > zlim[1]:
+            raise Exception("No part of the image is inside the axis 3 limits!")
+    if (box[0] > box[1]) or (box[2] > box[3]):
+        raise Exception("No part of the image is inside the box!")
 
     # Extract sub-region:
     if header["NAXIS"] == 4:
-- 
2.43.0


From 23be3d93353398e25e3ff637a0a073908248832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 20/45] fix: cut out of images with BSCALE/BZERO instead of
 failing to map them

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 9d124fe..2a43446 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -104,7 +104,7 @@ def main():
     if box[2] > box[3] and box[3] != -1:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
-    hdu = pf.open(args.infile, memmap=True)
+    hdu = pf.open(args.infile)
     header = hdu[0].header
 
     if args.sky:
-- 
2.43.0


From 2dc277cb29605657b033fea2563247d592250984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 21/45] fix: propagate all covariance terms when rescaling log
 Stokes I models

The fourth-order coefficient's error used cov[0, 5] for its cov[1, 1] term, and
the flux error lacked the factor ln(10)^2 on the terms of the other coefficients.
---
 RMutils/util_misc.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..f2527d8 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -658,7 +658,7 @@ def renormalize_StokesI_model(
                 + 30 * lnx**6 * cov[0, 2]
                 + 20 * lnx**5 * cov[0, 3]
                 + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
+                + 16 * lnx**6 * cov[1, 1]
                 + 24 * lnx**5 * cov[1, 2]
                 + 16 * lnx**4 * cov[1, 3]
                 + 8 * lnx**3 * cov[1, 4]
@@ -671,25 +671,28 @@ def renormalize_StokesI_model(
             ),
             np.abs(g2)
             * np.sqrt(
-                lnx**10 * cov[0, 0]
-                + 2 * lnx**9 * cov[0, 1]
-                + 2 * lnx**8 * cov[0, 2]
-                + 2 * lnx**7 * cov[0, 3]
-                + 2 * lnx**6 * cov[0, 4]
+                np.log(10) ** 2
+                * (
+                    lnx**10 * cov[0, 0]
+                    + 2 * lnx**9 * cov[0, 1]
+                    + 2 * lnx**8 * cov[0, 2]
+                    + 2 * lnx**7 * cov[0, 3]
+                    + 2 * lnx**6 * cov[0, 4]
+                    + lnx**8 * cov[1, 1]
+                    + 2 * lnx**7 * cov[1, 2]
+                    + 2 * lnx**6 * cov[1, 3]
+                    + 2 * lnx**5 * cov[1, 4]
+                    + lnx**6 * cov[2, 2]
+                    + 2 * lnx**5 * cov[2, 3]
+                    + 2 * lnx**4 * cov[2, 4]
+                    + lnx**4 * cov[3, 3]
+                    + 2 * lnx**3 * cov[3, 4]
+                    + lnx**2 * cov[4, 4]
+                )
                 + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
-                + lnx**8 * cov[1, 1]
-                + 2 * lnx**7 * cov[1, 2]
-                + 2 * lnx**6 * cov[1, 3]
-                + 2 * lnx**5 * cov[1, 4]
                 + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
-                + lnx**6 * cov[2, 2]
-                + 2 * lnx**5 * cov[2, 3]
-                + 2 * lnx**4 * cov[2, 4]
                 + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
-                + lnx**4 * cov[3, 3]
-                + 2 * lnx**3 * cov[3, 4]
                 + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
-                + lnx**2 * cov[4, 4]
                 + 2 * lnx / g * np.log(10) * cov[4, 5]
                 + 1 / g**2 * cov[5, 5]
             ),
-- 
2.43.0


From 2b0c5a2b289f2a11e4b09f378f8c697a65aa05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 22/45] fix: do not wait for ever when a worker of fitIcube or
 3DIrescale is killed

multiprocessing.Pool replaces a killed worker but never reports the tasks it held,
so map() did not return. An executor raises BrokenProcessPool instead.
---
 RMtools_3D/do_fitIcube.py        | 15 ++++++++++++---
 RMtools_3D/rescale_I_model_3D.py | 13 +++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index dbc4473..9f2cda3 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -39,6 +39,7 @@ import multiprocessing as mp
 import os
 import sys
 import time
+from concurrent.futures import ProcessPoolExecutor
 from functools import partial
 
 import astropy.io.fits as pf
@@ -556,10 +557,18 @@ def make_model_I(
             total=nDetectPix,
         )
     else:
-        mp.set_start_method("spawn", force=True)
+        # An executor, since a Pool waits for ever for the results of a killed worker.
         args_list = [d for d in srcData]
-        with mp.Pool(processes=num_cores) as pool:
-            results = pool.map(func, args_list)
+        with ProcessPoolExecutor(
+            max_workers=num_cores, mp_context=mp.get_context("spawn")
+        ) as pool:
+            results = list(
+                pool.map(
+                    func,
+                    args_list,
+                    chunksize=max(1, -(-len(args_list) // (4 * num_cores))),
+                )
+            )
 
     headcoeff = remove_header_third_fourth_axis(header=header.copy())
     del headcoeff["BUNIT"]
diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index f46dd22..a056a21 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -45,9 +45,9 @@
 #                      (make uniform across all pixels)
 
 import argparse
-import multiprocessing as mp
 import os
 import re
+from concurrent.futures import ProcessPoolExecutor
 from functools import partial
 
 import astropy.io.fits as pf
@@ -300,9 +300,14 @@ def rescale_I_model_3D(
             new_freq_map.flat,
         )
     )
-    with mp.Pool(num_cores) as pool_:
-        results = pool_.map(
-            partial(rescale_I_pixel, fit_function=fit_function), inputs, chunksize=100
+    # An executor, since a Pool waits for ever for the results of a killed worker.
+    with ProcessPoolExecutor(num_cores) as pool_:
+        results = list(
+            pool_.map(
+                partial(rescale_I_pixel, fit_function=fit_function),
+                inputs,
+                chunksize=100,
+            )
         )
 
     for i, (p, perror) in enumerate(results):
-- 
2.43.0


From 700fe1f0a75aac98c8125197b3c2215348beab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 23/45] fix: find the other components of a set of FDF cubes in
 paths containing _real, _im or _tot

---
 RMtools_3D/RMpeakfit_3D.py  | 10 +++++++---
 RMtools_3D/do_RMclean_3D.py |  9 ++++-----
 RMutils/util_misc.py        | 19 +++++++++++++++++++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index fbf3eaf..71cbc9e 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -17,7 +17,11 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import (
+    component_filename,
+    interp_images,
+    remove_header_third_fourth_axis,
+)
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -262,7 +266,7 @@ def read_files(FDF_filename, freq_filename):
     """
 
     HDUreal = pf.open(
-        FDF_filename.replace("_tot", "_real").replace("_im", "_real"),
+        component_filename(FDF_filename, "real"),
         "readonly",
         memmap=True,
     )
@@ -270,7 +274,7 @@ def read_files(FDF_filename, freq_filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        FDF_filename.replace("_tot", "_im").replace("_real", "_im"),
+        component_filename(FDF_filename, "im"),
         "readonly",
         memmap=True,
     )
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 6651685..f1a1401 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -49,6 +49,7 @@ except:
     parallel_available = False
 
 from RMtools_3D.do_RMsynth_3D import _setStokes
+from RMutils.util_misc import component_filename
 from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
 
 
@@ -109,9 +110,7 @@ def run_rmclean(
 
     RMSFArr, headRMSF, FD_axis = read_FDF_cubes(fitsRMSF)
     HDULst = pf.open(
-        fitsRMSF.replace("_real", "_FWHM")
-        .replace("_im", "_FWHM")
-        .replace("_tot", "_FWHM"),
+        component_filename(fitsRMSF, "FWHM"),
         "readonly",
         memmap=True,
     )
@@ -394,7 +393,7 @@ def read_FDF_cubes(filename):
     Returns: (complex_cube, header,FD_axis)
     """
     HDUreal = pf.open(
-        filename.replace("_tot", "_real").replace("_im", "_real"),
+        component_filename(filename, "real"),
         "readonly",
         memmap=True,
     )
@@ -402,7 +401,7 @@ def read_FDF_cubes(filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        filename.replace("_tot", "_im").replace("_real", "_im"), "readonly", memmap=True
+        component_filename(filename, "im"), "readonly", memmap=True
     )
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f2527d8..1f7b5fd 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -69,6 +69,7 @@
 # =============================================================================#
 
 import math as m
+import os
 import re
 import sys
 import traceback
@@ -874,6 +875,24 @@ def create_frac_spectra(
 # All flags greater than 128 indicate bad Stokes I model (negative values)
 
 
+# -----------------------------------------------------------------------------#
+def component_filename(filename, component):
+    """
+    Name of another component ('real', 'im', 'tot', or 'FWHM') of the set of
+    cubes that a file (the real, im, or tot component) belongs to. Only the
+    marker of the component is replaced, which is the last one in the file
+    name; directories and prefixes are left alone.
+    """
+    path, name = os.path.split(filename)
+    markers = list(re.finditer(r"_(real|im|tot)(?![A-Za-z])", name)) or list(
+        re.finditer(r"_(real|im|tot)", name)
+    )
+    if len(markers) == 0:
+        return filename
+    start, end = markers[-1].span()
+    return os.path.join(path, name[:start] + "_" + component + name[end:])
+
+
 # -----------------------------------------------------------------------------#
 def interp_images(arr1, arr2, f=0.5):
     """Create an interpolated image between two other images."""
-- 
2.43.0


From 85e8e287be8c81b28055b3d6ef1ecf8d302f2b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 24/45] fix: leave channels flagged in Stokes U only out of the
 RMSF, as they are of the FDF

---
 RMtools_1D/do_RMsynth_1D.py   | 2 +-
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 RMtools_3D/do_RMsynth_3D.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index c47f763..bfc87d4 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -317,7 +317,7 @@ def run_rmsynth(
         lambdaSqArr_m2=lambdaSqArr_m2,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF or super_resolution,
diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 70a2dbc..4144073 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1196,7 +1196,7 @@ def run_adjoint_rmsynth(
         widths_Hz=widths_Hz,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF,
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index ac4de74..a97ee14 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -213,7 +213,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=~(np.isfinite(dataQ) & np.isfinite(dataU)),
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From d5088c6cd54872f37f1b96cdd3a98410ffb606f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 25/45] fix: take the Faraday depth increment in headers from
 the whole axis, not from one rounded difference

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index a97ee14..3363d70 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -409,7 +409,7 @@ def writefits(
     if not not_rmsynth:
         header["NAXIS" + str(freq_axis)] = phiArr_radm2.size
         header["CDELT" + str(freq_axis)] = (
-            np.diff(phiArr_radm2)[0],
+            (float(phiArr_radm2[-1]) - float(phiArr_radm2[0])) / (phiArr_radm2.size - 1),
             "[rad/m^2] Coordinate increment at reference point",
         )
         header["CRPIX" + str(freq_axis)] = phiArr_radm2.size // 2 + 1
@@ -485,7 +485,7 @@ def writefits(
         # Header for outputs that are RMSF
         header["NAXIS" + str(freq_axis)] = phi2Arr_radm2.size
         header["CDELT" + str(freq_axis)] = (
-            np.diff(phi2Arr_radm2)[0],
+            (float(phi2Arr_radm2[-1]) - float(phi2Arr_radm2[0])) / (phi2Arr_radm2.size - 1),
             "[rad/m^2] Coordinate increment at reference point",
         )
         header["CRPIX" + str(freq_axis)] = phi2Arr_radm2.size // 2 + 1
-- 
2.43.0


From 61fe11fa31489b98a883db2902d8422055289a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 26/45] fix: QU-fitting: the corrected AIC is AIC plus the
 correction

AICc was calculated without the 2k term of AIC, so it came out smaller than AIC.
---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index e5a56eb..b10c3c6 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -456,7 +456,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From ff190bba55834c62ace9dc6b215df2828b99ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 27/45] fix: QU-fitting: do not report an earlier fit's result
 for other data

bilby uses a result or checkpoint which it finds in its output directory
without checking what data, model file or number of live points it came
from, so a second run after a change of the input reported the old
parameters.  A result file cut short by a crash made every later run fail.
---
 RMtools_1D/do_QUfit_1D_mnest.py | 44 +++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index b10c3c6..74f797c 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -47,9 +47,11 @@
 # =============================================================================#
 
 import argparse
+import hashlib
 import importlib
 import json
 import os
+import shutil
 import sys
 import time
 import traceback
@@ -384,6 +386,9 @@ def run_qufit(
 
     # Set the likelihood function given the data
     lnlike = lnlike_call(parNames, lamSqArr_m2, qArr, dqArr, uArr, duArr, modelNum)
+    # Do not let the sampler take up what a fit to other data has left behind
+    clear_old_results(nestOut, "m%d" % modelNum, lnlike, mod.__file__, nlive)
+
     # Let's time the sampler
     startTime = time.time()
 
@@ -600,6 +605,45 @@ def run_qufit(
         cornerFig.show()
 
 
+# -----------------------------------------------------------------------------#
+def clear_old_results(outDir, label, lnlike, modelFile, nlive):
+    """
+    Bilby uses any result or checkpoint it finds in its output directory,
+    whatever data it was made from. Keep the files of an earlier run only if
+    that was the same fit (data, model and number of live points), and remove
+    a result that was cut short when it was written.
+    """
+    stamp = hashlib.sha256()
+    for arr in (lnlike.lamSqArr_m2, lnlike.qArr, lnlike.dqArr, lnlike.uArr, lnlike.duArr):
+        stamp.update(np.ascontiguousarray(arr).tobytes())
+    with open(modelFile, "rb") as FH:
+        stamp.update(FH.read())
+    stamp.update(b"nlive=%d" % nlive)
+    stamp = stamp.hexdigest()
+
+    stampFile = os.path.join(outDir, label + "_inputs.sha256")
+    try:
+        with open(stampFile) as FH:
+            oldStamp = FH.read()
+    except OSError:
+        oldStamp = None
+
+    if oldStamp != stamp:
+        shutil.rmtree(outDir, ignore_errors=True)
+        os.makedirs(outDir, exist_ok=True)
+        with open(stampFile, "w") as FH:
+            FH.write(stamp)
+    else:
+        resultFile = os.path.join(outDir, label + "_result.json")
+        try:
+            with open(resultFile) as FH:
+                json.load(FH)
+        except FileNotFoundError:
+            pass
+        except ValueError:
+            os.remove(resultFile)
+
+
 # -----------------------------------------------------------------------------#
 class lnlike_call(bilby.Likelihood):
     """Returns a function to evaluate the log-likelihood"""
-- 
2.43.0


From 2cf2d48795b27c759ed903cb5db706dfe509ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 28/45] fix: QU-fitting: recognise an angle at 0/180 degrees
 when its samples are split evenly

The median of the unrotated samples is then near 90 degrees, so the
angle was taken to be there and given errors of about 90 degrees.
---
 RMtools_1D/do_QUfit_1D_mnest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 74f797c..f8c7f8a 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -417,8 +417,10 @@ def run_qufit(
             and wraps[i] == "periodic"
         ):
             # Only try to do it if the units is in deg, bounded within [0., 180.], and is a periodic variable
-            summary_tmp = result.get_one_dimensional_median_and_error_bar(parNames[i])
-            if summary_tmp.median < 45.0 or summary_tmp.median >= 135.0:
+            # The mean direction tells where they are; the median would not if as many
+            # samples lie below 180 deg as above 0 deg.
+            angles = np.radians(result.posterior[parNames[i]].to_numpy())
+            if np.mean(np.cos(2.0 * angles)) > 0.0:
                 # Shift PA by 90 deg
                 result.samples[:, i] += 90.0
                 # Keep all values within [0, 180)
-- 
2.43.0


From 1ff26500f222060b37d81c8355e70be964a2fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 29/45] fix: QU-fitting: rotate the right samples when a
 parameter of the model is fixed

The samples have no columns for fixed parameters, and the fixed values
were lost when the posterior was made again.
---
 RMtools_1D/do_QUfit_1D_mnest.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index f8c7f8a..bc32e2c 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -422,15 +422,16 @@ def run_qufit(
             angles = np.radians(result.posterior[parNames[i]].to_numpy())
             if np.mean(np.cos(2.0 * angles)) > 0.0:
                 # Shift PA by 90 deg
-                result.samples[:, i] += 90.0
+                j = result.search_parameter_keys.index(parNames[i])
+                result.samples[:, j] += 90.0
                 # Keep all values within [0, 180)
-                result.samples[:, i] -= (result.samples[:, i] >= 180.0) * 180.0
+                result.samples[:, j] -= (result.samples[:, j] >= 180.0) * 180.0
                 # Keep track of which parameters have been rotated
                 rotated_parNames.append(parNames[i])
 
     # Update the posterior values
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     # Best guess here - taking the maximum likelihood value
     lnLike = np.max(result.log_likelihood_evaluations)
@@ -549,14 +550,15 @@ def run_qufit(
     for i in range(nDim):
         if parNames[i] in rotated_parNames:
             # Rotate back by the 90 deg
-            result.samples[:, i] -= 90.0
+            j = result.search_parameter_keys.index(parNames[i])
+            result.samples[:, j] -= 90.0
             if p[i] > 135.0:
                 # In case the PA shown would be << 0 deg
-                result.samples[:, i] += 180.0
+                result.samples[:, j] += 180.0
 
     # Resampling to make sure the results show
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     cornerFig = result.plot_corner()
 
-- 
2.43.0


From cb4975b3dd97e25e8c9293bb941b03feb38b0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:39 +0000
Subject: [PATCH 30/45] fix: report a noise template that cannot be read

The test data tools silently assumed a flat noise curve and exited with
status 0 when the template given with -t/-n was missing or unreadable.
---
 RMtools_1D/mk_test_ascii_data.py | 4 ++--
 RMtools_3D/mk_test_cube_data.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/mk_test_ascii_data.py b/RMtools_1D/mk_test_ascii_data.py
index 2a53673..af0a027 100755
--- a/RMtools_1D/mk_test_ascii_data.py
+++ b/RMtools_1D/mk_test_ascii_data.py
@@ -228,9 +228,9 @@ def main():
             "Warn: Failed to parse frequency flagging string!"
 
     # Read the RMS noise template
-    try:
+    if noiseTmpFile is not None:
         noiseTmpArr = np.loadtxt(noiseTmpFile, unpack=True)
-    except Exception:
+    else:
         noiseTmpArr = None
 
     # Call the function to create the ASCII data files on disk
diff --git a/RMtools_3D/mk_test_cube_data.py b/RMtools_3D/mk_test_cube_data.py
index b3799de..be36cd8 100644
--- a/RMtools_3D/mk_test_cube_data.py
+++ b/RMtools_3D/mk_test_cube_data.py
@@ -228,9 +228,9 @@ def main():
             "Warn: Failed to parse frequency flagging string!"
 
     # Read the RMS noise template
-    try:
+    if noiseTmpFile is not None:
         noiseTmpArr = np.loadtxt(noiseTmpFile, unpack=True)
-    except Exception:
+    else:
         noiseTmpArr = None
 
     # Call the function to create FITS data
-- 
2.43.0


From f9c410f960002f20607cf7805ebe126de5f473c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:30 +0000
Subject: [PATCH 31/45] fix: rmtools_peakfitcube: refuse a noise file that does
 not match the frequencies

An empty or cut noise file gave NaN or wrong uncertainties and exit status 0.
---
 RMtools_3D/RMpeakfit_3D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 71cbc9e..e6e161f 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -480,6 +480,10 @@ def main():
         dataI = None
     if args.noiseFile is not None:
         rmsArr = readFreqFile(args.noiseFile, args.verbose)
+        if rmsArr.shape != lambdaSqArr_m2.shape:
+            raise Exception(
+                "The noise file does not have as many values as the frequency file."
+            )
     else:
         rmsArr = None
 
-- 
2.43.0


From f2dfc1644f8d95600922640a346486e1fb39ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 32/45] fix: rmclean1d: refuse an FDF and an RMSF that do not
 fit together

An FDF file that was cut short, or that is from a run with other settings
than the RMSF, was cleaned as if it were complete.
---
 RMtools_1D/do_RMclean_1D.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index e81db74..a27b70e 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -360,6 +360,14 @@ def readFiles(fdfFile, rmsfFile, weightFile, rmSynthFile, nBits):
     phiArr_radm2, FDFreal, FDFimag = np.loadtxt(fdfFile, unpack=True, dtype=dtFloat)
     # Read the RM-synthesis parameters from the JSON file
     mDict = json.load(open(rmSynthFile, "r"))
+    # A truncated file, or one from a different run, would give a wrong result.
+    nPhi = phiArr_radm2.size
+    if phi2Arr_radm2.size != nPhi + 2 * ((nPhi + 1) // 2):
+        raise Exception(
+            "The FDF and the RMSF are incomplete or do not belong together. "
+            "Please run rmsynth1d again."
+        )
+
     dirtyFDF = FDFreal + 1j * FDFimag
     RMSFArr = RMSFreal + 1j * RMSFimag
 
-- 
2.43.0


From 0229559cde3f094dd3acedfd7abd1b9938b80806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 33/45] fix: rmtools_peakfitcube: do not record Ctrl-C or a
 failed allocation as an unfittable pixel

---
 RMtools_3D/RMpeakfit_3D.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index e6e161f..fafc2d1 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -147,7 +147,9 @@ def pixelwise_peak_fitting(
                 mDict["dFDFth"] = np.nan
             for parameter in product_list:
                 map_dict[parameter][xarr[i], yarr[i]] = mDict[parameter]
-        except:
+        except MemoryError:
+            raise
+        except Exception:
             for parameter in product_list:
                 map_dict[parameter][xarr[i], yarr[i]] = np.nan
 
@@ -161,7 +163,7 @@ def delete_FITSheader_axis(fitsheader, axis_number):
     for keyword in axis_keywords:
         try:
             del fitsheader[keyword + axis_str]
-        except:
+        except KeyError:
             pass
 
 
@@ -253,7 +255,7 @@ def find_axes(header):
         try:
             if "FDEP" in header["CTYPE" + str(i)].upper():
                 FD_axis = i
-        except:
+        except (KeyError, AttributeError):
             pass  # The try statement is needed for if the FITS header does not
             # have CTYPE keywords.
     return Ndim, FD_axis
-- 
2.43.0


From 93e45b0bb39d5e271c0e5731a8424849690f74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 34/45] fix: 3D tools: do not lose the Faraday-depth or
 frequency axis when interrupted

---
 RMtools_3D/do_RMclean_3D.py | 4 ++--
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index f1a1401..51ab4c0 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -355,7 +355,7 @@ def read_FDF_cube(filename):
         try:
             if "FDEP" in head["CTYPE" + str(i)].upper():
                 FD_axis = i
-        except:
+        except (KeyError, AttributeError):
             pass  # The try statement is needed for if the FITS header does not
             # have CTYPE keywords.
 
@@ -380,7 +380,7 @@ def find_axes(header):
         try:
             if "FDEP" in header["CTYPE" + str(i)].upper():
                 FD_axis = i
-        except:
+        except (KeyError, AttributeError):
             pass  # The try statement is needed for if the FITS header does not
             # have CTYPE keywords.
     return Ndim, FD_axis
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 3363d70..0677ae4 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -375,7 +375,7 @@ def writefits(
         try:
             if "FREQ" in header["CTYPE" + str(i)].upper():
                 freq_axis = i
-        except:
+        except (KeyError, AttributeError):
             pass  # The try statement is needed for if the FITS header does not
             # have CTYPE keywords.
 
@@ -725,7 +725,7 @@ def find_freq_axis(header):
         try:
             if "FREQ" in header["CTYPE" + str(i)].upper():
                 freq_axis = i
-        except:
+        except (KeyError, AttributeError):
             pass  # The try statement is needed for if the FITS header does not
             # have CTYPE keywords.
     return freq_axis
-- 
2.43.0


From 0becabae3fed3e7a69053447710620f42e79765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 35/45] fix: do not take a failed allocation for an RMSF that
 cannot be fitted

---
 RMutils/util_RM.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 67e366a..7ac356d 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -340,11 +340,11 @@ def get_rmsf_planes(
     flagTotals = np.unique(xySum).tolist()
     try:
         flagTotals.remove(0)
-    except Exception:
+    except ValueError:
         pass
     try:
         flagTotals.remove(nPix)
-    except Exception:
+    except ValueError:
         pass
     do1Dcalc = True
     if len(flagTotals) > 0:
@@ -874,6 +874,8 @@ def fit_rmsf(xData, yData, thresh=0.4, ampThresh=0.4):
 
         return mp
 
+    except MemoryError:
+        raise
     except Exception:
         return None
 
@@ -1142,7 +1144,7 @@ def cdf_percentile(x, p, q=50.0):
     # Determine index where cumulative percentage is achieved
     try:  # Can fail if NaNs present, so return NaN in this case.
         i = np.where(p > q / 100.0)[0][0]
-    except:
+    except IndexError:
         return np.nan
 
     # If at extremes of the distribution, return the limiting value
-- 
2.43.0


From 6007ec2f8a245dc24b0b5b804e56511d88c3e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:15 +0000
Subject: [PATCH 36/45] fix: do not take a failed allocation for a Stokes I
 spectrum that cannot be fitted

---
 RMutils/util_misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 1f7b5fd..58c22a0 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -775,6 +775,8 @@ def create_frac_spectra(
                 fit_result = fit_result.with_options(
                     fitStatus=fit_result.fitStatus + 64
                 )
+        except MemoryError:
+            raise
         except Exception:  # If fit fails, fallback:
             print("Err: Failed to fit polynomial to Stokes I spectrum.")
             if debug:
-- 
2.43.0


From 3e7aebc8fbcfcd27e9b1fa4c16a4fe5cb2399e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 37/45] fix: test-data tools: report a frequency flagging
 string that cannot be parsed

---
 RMtools_1D/mk_test_ascii_data.py | 4 ++--
 RMtools_3D/mk_test_cube_data.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/RMtools_1D/mk_test_ascii_data.py b/RMtools_1D/mk_test_ascii_data.py
index af0a027..daccc8f 100755
--- a/RMtools_1D/mk_test_ascii_data.py
+++ b/RMtools_1D/mk_test_ascii_data.py
@@ -224,8 +224,8 @@ def main():
             flagFreqLst = args.flagFreqStr.split(",")
             flagFreqLst = [float(x) for x in flagFreqLst]
             flagRanges_Hz = list(zip(*[iter(flagFreqLst)] * 2))
-        except Exception:
-            "Warn: Failed to parse frequency flagging string!"
+        except ValueError:
+            parser.error("Failed to parse frequency flagging string!")
 
     # Read the RMS noise template
     if noiseTmpFile is not None:
diff --git a/RMtools_3D/mk_test_cube_data.py b/RMtools_3D/mk_test_cube_data.py
index be36cd8..e5249a5 100644
--- a/RMtools_3D/mk_test_cube_data.py
+++ b/RMtools_3D/mk_test_cube_data.py
@@ -224,8 +224,8 @@ def main():
             flagFreqLst = args.flagFreqStr.split(",")
             flagFreqLst = [float(x) for x in flagFreqLst]
             flagRanges_Hz = list(zip(*[iter(flagFreqLst)] * 2))
-        except Exception:
-            "Warn: Failed to parse frequency flagging string!"
+        except ValueError:
+            parser.error("Failed to parse frequency flagging string!")
 
     # Read the RMS noise template
     if noiseTmpFile is not None:
-- 
2.43.0


From f1fabe7b118955447bea1432a30baf3f23489b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 38/45] fix: do not leave header cards of a removed axis behind
 when memory runs out

---
 RMutils/util_FITS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 64335af..5f32ca9 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -223,7 +223,7 @@ def strip_fits_dims(data=None, header=None, minDim=2, forceCheckDims=0):
                 if key + str(i) in header:
                     try:
                         del header[key + str(i)]
-                    except Exception:
+                    except KeyError:
                         pass
 
         # Delete the PC array keyword entries
@@ -234,7 +234,7 @@ def strip_fits_dims(data=None, header=None, minDim=2, forceCheckDims=0):
                     if key in header:
                         try:
                             del header[key]
-                        except Exception:
+                        except KeyError:
                             pass
 
         header["NAXIS"] = minDim
-- 
2.43.0


From f912ea47273a3659984e8b747411171ced00815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 39/45] fix: record in each chunk where it belongs, and refuse
 chunks that are out of place

---
 RMtools_3D/assemble_chunks.py | 2 ++
 RMtools_3D/create_chunks.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index ad14b6d..be6091b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -103,6 +103,7 @@ def main():
         head = pf.getheader(file)
         if (
             head["NAXIS1"] != min(Nperchunk, Npix_image - i * Nperchunk)
+            or head.get("CHUNKPIX", i * Nperchunk) != i * Nperchunk
             or (head["OLDXDIM"], head["OLDYDIM"]) != (x_dim, y_dim)
             or head["NAXIS"] != Ndim
             or any(
@@ -115,6 +116,7 @@ def main():
     new_header = old_header.copy()
     del new_header["OLDXDIM"]
     del new_header["OLDYDIM"]
+    new_header.remove("CHUNKPIX", ignore_missing=True)
     new_header["NAXIS1"] = x_dim
     new_header["NAXIS2"] = y_dim
 
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 2c3e16e..a8b70ce 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -99,6 +99,7 @@ def main():
 
     # Run for all but last. Last chunk requires some finessing.
     for i in trange(num_chunks - 1, desc="Creating chunks"):
+        new_header["CHUNKPIX"] = (i * Nperchunk, "First pixel of this chunk")
         idx = base_idx_arr + i * Nperchunk
         xarr = idx // y_image
         yarr = idx % y_image
@@ -107,6 +108,7 @@ def main():
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
     i = num_chunks - 1
+    new_header["CHUNKPIX"] = (i * Nperchunk, "First pixel of this chunk")
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From 74a7ade7add0a4864406f460fa383d1f9f5ffbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 40/45] fix: do not leave an unfinished image, model cube or
 list behind under the name of the product

---
 RMtools_3D/assemble_chunks.py   | 14 +++++++++++---
 RMtools_3D/do_fitIcube.py       | 20 +++++++++-----------
 RMtools_3D/make_freq_file.py    |  6 +++++-
 RMtools_3D/mk_test_cube_data.py | 11 ++++++-----
 4 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be6091b..9cc91d3 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -10,6 +10,7 @@ output files from 3D RM synthesis back into larger cubes.
 """
 
 import argparse
+import os
 import re
 from glob import escape, glob
 from math import ceil
@@ -120,8 +121,14 @@ def main():
     new_header["NAXIS1"] = x_dim
     new_header["NAXIS2"] = y_dim
 
+    # Assemble under another name, so that an unfinished image cannot be taken
+    # for the complete one.
+    if os.path.lexists(output_filename) and not args.overwrite:
+        raise OSError(f"File {output_filename} already exists.")
+    partial_filename = output_filename + ".part"
+
     # Create blank file:
-    new_header.tofile(output_filename, overwrite=args.overwrite)
+    new_header.tofile(partial_filename, overwrite=True)
 
     # According to astropy, this is how to create a large file without needing it in memory:
     shape = tuple(
@@ -129,13 +136,13 @@ def main():
     )
     # FITS files consist of whole 2880-byte blocks.
     data_size = int(np.prod(shape) * np.abs(new_header["BITPIX"] // 8))
-    with open(output_filename, "rb+") as fobj:
+    with open(partial_filename, "rb+") as fobj:
         fobj.seek(len(new_header.tostring()) + 2880 * ceil(data_size / 2880) - 1)
         fobj.write(b"\0")
 
     base_idx_arr = np.array(range(Nperchunk))
 
-    large = pf.open(output_filename, mode="update", memmap=args.memmap)
+    large = pf.open(partial_filename, mode="update", memmap=args.memmap)
 
     for i in trange(num_chunks - 1, desc="Assembling chunks"):
         file = chunkfiles[i]
@@ -171,6 +178,7 @@ def main():
     chunk.close()
 
     large.close()
+    os.replace(partial_filename, output_filename)
 
 
 if __name__ == "__main__":
diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 9f2cda3..ca7ab9e 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -384,28 +384,23 @@ def savefits_model_I(data, header, outDir, prefixOut):
     """
 
     nDim = data.ndim
-    nBits = np.abs(header["BITPIX"])
 
     headModelCube = strip_fits_dims(header=header, minDim=nDim)
     headModelCube["NAXIS1"] = header["NAXIS1"]
     headModelCube["NAXIS2"] = header["NAXIS2"]
     headModelCube["NAXIS3"] = header["NAXIS3"]
 
-    nVoxels = header["NAXIS1"] * header["NAXIS2"] * header["NAXIS3"]
     if nDim == 4:
         headModelCube["NAXIS4"] = header["NAXIS4"]
-        nVoxels *= header["NAXIS4"]
     while len(headModelCube) < (36 * 4 - 1):
         headModelCube.append()
 
     fitsModelFile = os.path.join(outDir, prefixOut + "model.i.fits")
-    headModelCube.tofile(fitsModelFile, overwrite=True)
-    with open(fitsModelFile, "rb+") as f:
-        f.seek(len(headModelCube.tostring()) + (nVoxels * int(nBits / 8)) - 1)
-        f.write(b"\0")
-    HDULst = pf.open(fitsModelFile, "update", memmap=True)
-    HDULst[0].data = data
-    HDULst.close()
+    # Written in one go: a file of its full size, but still without the model,
+    # would be taken for a model cube of zeros.
+    pf.writeto(
+        fitsModelFile, data, headModelCube, output_verify="fix", overwrite=True
+    )
 
 
 def fit_spectra_I(
@@ -654,7 +649,10 @@ def make_model_I(
         print("Saving model I cube image. ")
     savefits_model_I(data=modelIcube, header=header, outDir=outDir, prefixOut=prefixOut)
 
-    np.savetxt(os.path.join(outDir, prefixOut + "noise.dat"), rms_Arr)
+    # A list that was cut short could not be told from a complete one.
+    noise_file = os.path.join(outDir, prefixOut + "noise.dat")
+    np.savetxt(noise_file + ".part", rms_Arr)
+    os.replace(noise_file + ".part", noise_file)
 
     return modelIcube
 
diff --git a/RMtools_3D/make_freq_file.py b/RMtools_3D/make_freq_file.py
index caf0718..150fff3 100644
--- a/RMtools_3D/make_freq_file.py
+++ b/RMtools_3D/make_freq_file.py
@@ -10,6 +10,7 @@
 
 
 import argparse
+import os
 
 import numpy as np
 from astropy.io import fits
@@ -36,7 +37,10 @@ def save_freq_file():
 
     freq_array = get_freq_array(args.fits_file[0])
 
-    np.savetxt(args.freq_file, freq_array, delimiter="")
+    # A list that was cut short could not be told from a complete one.
+    partial_file = args.freq_file + ".part"
+    np.savetxt(partial_file, freq_array, delimiter="")
+    os.replace(partial_file, args.freq_file)
     print("Saving the frequencies list to {}".format(args.freq_file))
 
 
diff --git a/RMtools_3D/mk_test_cube_data.py b/RMtools_3D/mk_test_cube_data.py
index e5249a5..415f5ad 100644
--- a/RMtools_3D/mk_test_cube_data.py
+++ b/RMtools_3D/mk_test_cube_data.py
@@ -473,6 +473,12 @@ def create_IQU_cube_data(
         hduQ.data[0, :, 20:60, 20:70] = np.nan
         hduU.data[0, :, 20:60, 20:70] = np.nan
 
+    # Save a vector of frequency values. Comes first: an unfinished one could
+    # not be told from the complete one if the FITS files were there already.
+    freqFileOut = dataPath + "/freqs_Hz.dat"
+    print("> %s" % freqFileOut)
+    np.savetxt(freqFileOut, freqNoFlgArr_Hz)
+
     # Write to the FITS files
     print("Saving the FITS files to disk in directory '%s'" % dataPath)
     sys.stdout.flush()
@@ -486,11 +492,6 @@ def create_IQU_cube_data(
     print("> %s" % fitsFileOut)
     hduU.writeto(fitsFileOut, overwrite=True)
 
-    # Save a vector of frequency values
-    freqFileOut = dataPath + "/freqs_Hz.dat"
-    print("> %s" % freqFileOut)
-    np.savetxt(freqFileOut, freqNoFlgArr_Hz)
-
     return successCount
 
 
-- 
2.43.0


From 07c5413e4c948e90a196fbb8645e83cea4b51f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 41/45] fix: take Stokes I at the reference frequency from the
 channels around it, in any channel order and with super-resolution

---
 RMtools_3D/RMpeakfit_3D.py  | 20 +++++++-------------
 RMtools_3D/do_RMsynth_3D.py | 13 +++++--------
 RMutils/util_misc.py        | 16 ++++++++++++++++
 3 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index fafc2d1..9d9bf1f 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -19,7 +19,7 @@ from tqdm.auto import trange
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
 from RMutils.util_misc import (
     component_filename,
-    interp_images,
+    interp_planes_at_freq,
     remove_header_third_fourth_axis,
 )
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
@@ -76,19 +76,13 @@ def pixelwise_peak_fitting(
         map_dict[parameter] = np.zeros(map_size)
 
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
-    freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    freq0_Hz = (
+        speed_of_light.value / np.sqrt(lam0Sq)
+        if lam0Sq > 0
+        else np.nanmean(freqArr_Hz)
+    )
     if stokesIcube is not None:
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx, :, :], stokesIcube[idx + 1, :, :], f=0.5
-            )
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx - 1, :, :], stokesIcube[idx, :, :], f=0.5
-            )
-        else:
-            Ifreq0Arr = stokesIcube[idx, :, :]
+        Ifreq0Arr = interp_planes_at_freq(stokesIcube, freqArr_Hz, freq0_Hz)
     else:
         Ifreq0Arr = np.ones(map_size)
         stokesIcube = np.ones((freqArr_Hz.size, map_size[0], map_size[1]))
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 0677ae4..1f0fd9d 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -44,7 +44,10 @@ import astropy.io.fits as pf
 import numpy as np
 from astropy.constants import c as speed_of_light
 
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import (
+    interp_planes_at_freq,
+    remove_header_third_fourth_axis,
+)
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
 
 if sys.version_info.major == 2:
@@ -239,13 +242,7 @@ def run_rmsynth(
         )
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
-        else:
-            Ifreq0Arr = dataI[idx, :, :]
+        Ifreq0Arr = interp_planes_at_freq(dataI, freqArr_Hz, freq0_Hz)
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
         # (the FDF cube has lost its image axes of length 1)
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 58c22a0..e01d0c9 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -916,6 +916,22 @@ def interp_images(arr1, arr2, f=0.5):
     return interpArr
 
 
+# -----------------------------------------------------------------------------#
+def interp_planes_at_freq(dataArr, freqArr_Hz, freq0_Hz):
+    """Average the two planes of a cube whose frequencies bracket freq0_Hz
+    (the channels may be in any order)."""
+
+    offset = freqArr_Hz - freq0_Hz
+    below = np.where(offset <= 0, -offset, np.inf).argmin()
+    above = np.where(offset >= 0, offset, np.inf).argmin()
+    if offset[below] > 0:  # All channels are above freq0_Hz
+        below = above
+    if offset[above] < 0:  # All channels are below freq0_Hz
+        above = below
+
+    return interp_images(dataArr[below, :, :], dataArr[above, :, :], f=0.5)
+
+
 # -----------------------------------------------------------------------------#
 def fit_spec_poly5(xData, yData, dyData=None, order=5, fit_function="log"):
     """Fit a 5th order polynomial to a spectrum. To avoid overflow errors the
-- 
2.43.0


From d29b62000b4af20b7580956fa9099db0b186c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 42/45] fix: two-dimensional maps keep the image axes'
 coordinates when the spectral axis comes before them

---
 RMtools_3D/RMpeakfit_3D.py  |  3 ++-
 RMtools_3D/do_RMclean_3D.py |  3 ++-
 RMtools_3D/do_RMsynth_3D.py |  6 ++++--
 RMutils/util_misc.py        | 31 +++++++++++++++++++++++++++++++
 4 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 9d9bf1f..806117e 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -20,6 +20,7 @@ from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
 from RMutils.util_misc import (
     component_filename,
     interp_planes_at_freq,
+    move_header_axis_last,
     remove_header_third_fourth_axis,
 )
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
@@ -170,7 +171,7 @@ def save_maps(map_dict, prefix_path, FDFheader):
             prefix to be given to the files.
     """
     # Set up generic FITS header
-    product_header = FDFheader.copy()
+    product_header = move_header_axis_last(FDFheader, find_axes(FDFheader)[1])
     # Remove extra axes:
     product_header = remove_header_third_fourth_axis(product_header)
 
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 51ab4c0..a31a0fc 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -49,7 +49,7 @@ except:
     parallel_available = False
 
 from RMtools_3D.do_RMsynth_3D import _setStokes
-from RMutils.util_misc import component_filename
+from RMutils.util_misc import component_filename, move_header_axis_last
 from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
 
 
@@ -307,6 +307,7 @@ def writefits(
     # Because there can be problems with different axes having different FITS keywords,
     # don't try to remove the FD axis, but just make it degenerate.
 
+    header = move_header_axis_last(header, find_axes(headtemp)[1])
     if headtemp["NAXIS"] > 2:
         header["NAXIS3"] = 1
         header["CTYPE3"] = ("DEGENERATE", "Axis left in to avoid FITS errors")
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 1f0fd9d..d38fa85 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -46,6 +46,7 @@ from astropy.constants import c as speed_of_light
 
 from RMutils.util_misc import (
     interp_planes_at_freq,
+    move_header_axis_last,
     remove_header_third_fourth_axis,
 )
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
@@ -497,6 +498,7 @@ def writefits(
         rmsffwhm_header["BUNIT"] = "rad/m^2"
         rmsffwhm_header.pop("BTYPE", None)
         # Remove 3rd and 4th axis, RMSF_FWHM is a plane, like the 2D peak maps
+        rmsffwhm_header = move_header_axis_last(rmsffwhm_header, freq_axis)
         rmsffwhm_header = remove_header_third_fourth_axis(rmsffwhm_header)
 
         if write_seperate_FDF:  # more memory efficient as well
@@ -628,7 +630,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(maxPI.astype(dtFloat), axis=0),
+            np.expand_dims(maxPI.astype(dtFloat), axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
@@ -641,7 +643,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(peakRM, axis=0),
+            np.expand_dims(peakRM, axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index e01d0c9..e994343 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -125,6 +125,37 @@ def update_position_wcsaxes(header):
     return header
 
 
+def move_header_axis_last(header, axis):
+    """Returns a copy of a FITS header in which one of the first two axes has been
+    moved behind all others, so that the image axes come first."""
+
+    out_header = header.copy()
+    if axis > 2:
+        return out_header
+
+    n_dim = header["NAXIS"]
+    order = [i for i in range(1, n_dim + 1) if i != axis] + [axis]
+    keys = ["NAXIS{0}", "CTYPE{0}", "CRVAL{0}", "CRPIX{0}", "CDELT{0}", "CUNIT{0}"]
+    pairs = [
+        (key.format(new), key.format(old))
+        for key in keys
+        for new, old in enumerate(order, 1)
+    ]
+    pairs += [
+        (f"{key}{new1}_{new2}", f"{key}{old1}_{old2}")
+        for key in ("PC", "CD")
+        for new1, old1 in enumerate(order, 1)
+        for new2, old2 in enumerate(order, 1)
+    ]
+    for new_key, old_key in pairs:
+        if old_key in header:
+            out_header[new_key] = (header[old_key], header.comments[old_key])
+        else:
+            out_header.pop(new_key, None)
+
+    return out_header
+
+
 def remove_header_third_fourth_axis(header):
     """Removes extra axes from header to compress down to 2 axes"""
     # List of keys related to the 3rd and 4th axes to remove (essentially everything with a '3' or '4')
-- 
2.43.0


From 4834995bf3fb9fe3517326f35cf750f7ea835963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 43/45] fix: accept six-column input (channel widths without
 Stokes I) in rmtools_bwdepol

---
 RMtools_1D/rmtools_bwdepol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 4144073..05e1405 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1041,7 +1041,8 @@ def run_adjoint_rmsynth(
                 "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
                 end=" ",
             )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
     elif data.shape[0] == 5:
         if verbose:
             log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
-- 
2.43.0


From 8260d7332b39c15b56237f10d9ca44e456a2f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:25 +0000
Subject: [PATCH 44/45] fix: write all maps of a rescaled model, also with an
 empty plane or no good pixel

---
 RMtools_3D/rescale_I_model_3D.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a056a21..0caf124 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -341,9 +341,10 @@ def write_new_parameters(
 
     # Work out highest order of polynomial:
     # if any of the 6 possible coeff planes contain non-zero and non-nan values, it's a 'good' plane.
-    max_order = (
-        np.sum(np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))) - 1
-    )
+    # Planes below the highest good one are part of the model, too; a model without
+    # any good pixel (e.g., fully masked) still has its zeroth order.
+    good_planes = np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))
+    max_order = max(5 - np.flatnonzero(good_planes), default=0)
 
     for i in range(max_order + 1):
         pf.writeto(
-- 
2.43.0


From b1b21a8f1746cd0b098bda17bab7460f315ee2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:25 +0000
Subject: [PATCH 45/45] fix: do not count blanked channels in the goodness of
 fit

---
 RMtools_1D/do_QUfit_1D_mnest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index bc32e2c..a5d756a 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -459,7 +459,8 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    # (blanked channels do not count)
+    nData = float(np.sum(np.isfinite(qArr)) + np.sum(np.isfinite(uArr)))
     dof = nData - nFree - 1
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
-- 
2.43.0

