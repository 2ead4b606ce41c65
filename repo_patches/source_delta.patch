From fedc8a2c0e96c1b9924a5d5c615ec0c0cc737cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 01/57] fix: do not extend the caller's redundant groups when
 chunking baselines

---
 hera_cal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index b533b5d..5298f90 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1821,7 +1821,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
                           " of baselines exceeding max_chunk_size=%d."
                           " First baseline is %s"
                           " Loading group anyways." % (len(reds[group_index]), max_chunk_size, str(reds[group_index][0])))
-            baseline_chunks.append(grp)
+            baseline_chunks.append(list(grp))
         else:
             # if baseline_chunks is empty, initialize the first chunk.
             if len(baseline_chunks) == 0:
@@ -1829,7 +1829,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
             if len(baseline_chunks[-1]) + len(grp) <= max_chunk_size:
                 baseline_chunks[-1].extend(grp)
             else:
-                baseline_chunks.append(grp)
+                baseline_chunks.append(list(grp))
     return baseline_chunks
 
 
-- 
2.43.0


From 9fec95f15a5af63ab914d0dd829c52d2aa3daee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 02/57] fix: get_selected_bls no longer appends to the caller's
 selector list

---
 hera_cal/lst_stack/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index f1a99cc..da7d20e 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -293,6 +293,8 @@ def get_selected_bls(
         selectors = []
     elif callable(selectors):
         selectors = [selectors]
+    else:
+        selectors = list(selectors)
 
     if min_days:
         selectors.append(lambda bl: bl in days_binned and (np.median(days_binned[bl]) >= min_days))
-- 
2.43.0


From 15327a887628ebbfa9e4d1f9a189ec5a2023554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 03/57] fix: LSTBinConfigurator.from_toml no longer empties a
 dictionary it is given

---
 hera_cal/lst_stack/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 83a0096..8a2248f 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -441,7 +441,7 @@ class LSTBinConfigurator:
     @classmethod
     def from_toml(cls, toml_file: str | Path | dict) -> LSTBinConfigurator:
         if isinstance(toml_file, dict):
-            dct = toml_file
+            dct = dict(toml_file)
         elif isinstance(toml_file, (str, Path)) and Path(toml_file).exists():
             dct = toml.load(toml_file)
         elif isinstance(toml_file, str):
-- 
2.43.0


From 19dba465a1b8adf4bcbbec0e92a53640bcf3d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 04/57] fix: do not leave stale LST bin edges in the caller's
 cal_file_loader_kwargs

---
 hera_cal/lst_stack/binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 9150294..e2a8ce4 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -698,8 +698,8 @@ def lst_bin_files_for_baselines(
 
     # Add LST filtering info to cal_file_loader_kwargs if using custom loader
     if cal_file_loader is not None:
-        if cal_file_loader_kwargs is None:
-            cal_file_loader_kwargs = {}
+        # copy, so that the caller's dictionary can be reused for other LST bins
+        cal_file_loader_kwargs = dict(cal_file_loader_kwargs or {})
 
         # Add LST bin edges if not already present
         if 'lst_bin_edges' not in cal_file_loader_kwargs:
-- 
2.43.0


From bd4dc41aec15676f6cf6b8766eb8d8b17b546a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 05/57] fix: get_all_times_and_lsts no longer unwraps the LSTs
 of the HERAData object it reads

---
 hera_cal/abscal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 2c30218..b7650f9 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3682,6 +3682,7 @@ def get_all_times_and_lsts(hd, solar_horizon=90.0, unwrap=True):
         all_times = np.array([time for f in hd.filepaths for time in all_times[f]])
         all_lsts = np.array([lst for f in hd.filepaths for lst in all_lsts[f]])[np.argsort(all_times)]
     if unwrap:  # avoid phase wraps
+        all_lsts = np.array(all_lsts)  # copy, so that hd.lsts is left alone
         all_lsts[all_lsts < all_lsts[0]] += 2 * np.pi
 
     # remove times when sun was too high
-- 
2.43.0


From 2a41c751bd60e6e746095fdc271f284e89bde85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 06/57] fix: rephase_vis no longer unwraps the caller's LST
 array

---
 hera_cal/abscal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index b7650f9..df0ee07 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -2148,6 +2148,7 @@ def rephase_vis(model, model_lsts, data_lsts, bls, freqs, inplace=False, flags=N
     new_flags : DataContainer with new flags
     """
     # unravel LST array if necessary
+    data_lsts = np.array(data_lsts)
     data_lsts[data_lsts < data_lsts[0]] += 2 * np.pi
 
     # get nearest neighbor model points
-- 
2.43.0


From a52445a0d3582b54d36fb8e201e69b2ec2b550ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 07/57] fix: interp2d_vis no longer overwrites the model and
 flags it interpolates

---
 hera_cal/abscal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index df0ee07..4f18b73 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -2020,9 +2020,11 @@ def interp2d_vis(model, model_lsts, model_freqs, data_lsts, data_freqs, flags=No
         # get model array
         m = model[k]
 
+        model_flags = flags[k] if flags is not None else None
+
         # get real and imag separately
-        real = np.real(m)
-        imag = np.imag(m)
+        real = np.real(m).copy()
+        imag = np.imag(m).copy()
 
         # median filter flagged data if desired
         if medfilt_flagged and flags is not None:
@@ -2074,7 +2076,7 @@ def interp2d_vis(model, model_lsts, model_freqs, data_lsts, data_freqs, flags=No
 
             # flag residual nans
             resid_nans = np.isnan(real) + np.isnan(imag)
-            flags[k] += resid_nans
+            model_flags = flags[k] | resid_nans
 
             # replace residual nans
             real[resid_nans] = 0.0
@@ -2082,7 +2084,7 @@ def interp2d_vis(model, model_lsts, model_freqs, data_lsts, data_freqs, flags=No
 
         # propagate flags to nearest neighbor
         if flags is not None:
-            f = flags[k][time_nn, freq_nn]
+            f = model_flags[time_nn, freq_nn]
             # check f is boolean type
             if np.issubdtype(f.dtype, np.floating):
                 f = ~(f.astype(bool))
-- 
2.43.0


From 2bc0b1315fe8c636c3bf3ce594320c81d1619c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 08/57] fix: complex_phase_abscal no longer rescales the
 transformed antenna positions it is given

---
 hera_cal/abscal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 4f18b73..8e0651c 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -1695,6 +1695,7 @@ def complex_phase_abscal(data, model, reds, data_bls, model_bls, transformed_ant
     # Get transformed antenna positions and baselines
     if transformed_antpos is None:
         transformed_antpos = redcal.reds_to_antpos(reds)
+    transformed_antpos = copy.deepcopy(transformed_antpos)
     _put_transformed_array_on_integer_grid(transformed_antpos)
     transformed_b_vecs = np.rint([transformed_antpos[jj] - transformed_antpos[ii] for (ii, jj, pol) in data_bls]).astype(int)
 
-- 
2.43.0


From 654a7b8b18e5d586bde52e176b0dbbe574a9e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 09/57] fix: lst_align no longer unwraps the caller's LST array

---
 hera_cal/lstbin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lstbin.py b/hera_cal/lstbin.py
index f5a892f..9d8621e 100644
--- a/hera_cal/lstbin.py
+++ b/hera_cal/lstbin.py
@@ -501,6 +501,7 @@ def lst_align(data, data_lsts, flags=None, dlst=None,
 
     # unwrap lsts
     if data_lsts[-1] < data_lsts[0]:
+        data_lsts = np.array(data_lsts)
         data_lsts[data_lsts < data_lsts[0]] += 2 * np.pi
 
     # make lst_grid
-- 
2.43.0


From 0a6e4354372ad6a705ae4e32ea3306fed260c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 10/57] fix: RedundantGroups.append(inplace=False) updates the
 copy, not the original

---
 hera_cal/red_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index 73aa073..badbc55 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -455,7 +455,7 @@ class RedundantGroups:
             else:
                 obj._red_list.insert(pos, red)
 
-            self._add_new_group(red)
+            obj._add_new_group(red)
 
         if not inplace:
             return obj
-- 
2.43.0


From cfb1a53cdde38a90123e58e0b64c82f9fd1b8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 11/57] fix: auto_reflection_run no longer rewrites the
 caller's dly_ranges list

---
 hera_cal/reflections.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 4415a02..2c28b9a 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -1460,9 +1460,7 @@ def auto_reflection_run(data, dly_ranges, output_fname, filetype='uvh5', input_c
     if isinstance(dly_ranges, tuple):
         dly_ranges = [dly_ranges]
     if isinstance(dly_ranges, list):
-        for i, dlyr in enumerate(dly_ranges):
-            if isinstance(dlyr, str):
-                dly_ranges[i] = ast.literal_eval(dlyr)
+        dly_ranges = [ast.literal_eval(dlyr) if isinstance(dlyr, str) else dlyr for dlyr in dly_ranges]
 
     # initialize reflection fitter
     RF = ReflectionFitter(data, filetype=filetype, input_cal=input_cal)
-- 
2.43.0


From 9de95dfbf3418462905859544460edaa841801bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 12/57] fix: get_fringe_rate_limits no longer renormalises the
 caller's fringe-rate profiles

---
 hera_cal/frf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 140bbdb..ba0a54e 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -715,9 +715,8 @@ def get_fringe_rate_limits(uvd, uvb=None, frate_profiles=None, percentile_low=5.
         frlows = []
         frhighs = []
         for bl in [bl0, utils.reverse_bl(bl0)]:
-            binned_power = frate_profiles[bl]
             # normalize to sum to 100.
-            binned_power /= np.sum(binned_power)
+            binned_power = frate_profiles[bl] / np.sum(frate_profiles[bl])
             binned_power *= 100.
             # get CDF as function of fringe-rate bin.
             cspower = np.cumsum(binned_power)
-- 
2.43.0


From 28d78a90302b73d43d08f69118ad47f4fc15f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 13/57] fix: lst_average no longer replaces the mask of the
 caller's nsamples

---
 hera_cal/lst_stack/averaging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 0d25f1b..d51451c 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -251,6 +251,7 @@ def lst_average(
     # While the previous nsamples is different for in-painted and flagged mode, which is
     # what we want for the mean, for the std and nsamples we want to treat flags as really
     # flagged.
+    nsamples = nsamples.copy()
     nsamples.mask = flags
 
     if get_std:
-- 
2.43.0


From 2823cc15dfb641a7bd20fb012662a8bf6f22b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 14/57] fix: calibrate_redundant_solution no longer adds
 antennas to the caller's gains and flags

---
 hera_cal/apply_cal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 7888a61..07367fa 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -70,6 +70,10 @@ def calibrate_redundant_solution(data, data_flags, new_gains, new_flags, all_red
     assert np.all([ant in old_gains for ant in new_gains])
     assert np.all([ant in old_flags for ant in new_gains])
 
+    # shallow copies, because missing antennas are filled in below
+    new_gains, new_flags = dict(new_gains), dict(new_flags)
+    old_gains, old_flags = dict(old_gains), dict(old_flags)
+
     for red in all_reds:
         # skip if there's nothing to calibrate
         if np.all([bl not in data for bl in red]):
-- 
2.43.0


From 499ba1b0951c984bb7b596eebdc225caf335b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 15/57] fix: redundantly_calibrate no longer overwrites the
 starting solution when logcal is skipped

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 1403f11..b5dffe8 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1634,7 +1634,7 @@ def redundantly_calibrate(data, reds, sol0=None, run_logcal=True, run_omnical=Tr
     if run_logcal:
         _, sol = rc.logcal(data, sol0=sol0)
     else:
-        sol = sol0
+        sol = deepcopy(sol0)
 
     # calculate data_wgts for omnical or calculating chisq
     if run_omnical or compute_chisq:
-- 
2.43.0


From ea82837b8a4ab840a43a5f1ad199f120e6e52f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 16/57] fix: CalibrationSmoother uses ant_threshold instead of
 time_threshold for antenna flagging

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index d98e9a6..1c66b72 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1012,7 +1012,7 @@ class CalibrationSmoother():
         # perform data quality checks and flag thresholding
         self.check_consistency()
         flag_threshold_and_broadcast(self.flag_grids, freq_threshold=freq_threshold,
-                                     time_threshold=time_threshold, ant_threshold=time_threshold)
+                                     time_threshold=time_threshold, ant_threshold=ant_threshold)
 
         # build blacklists
         self.blacklist_wgt = blacklist_wgt
-- 
2.43.0


From 72804fe6b1314397a1366ae9aa4a8e8a035578d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 17/57] fix: refine_auto_reflections passes skip_frac on to the
 minimizer

---
 hera_cal/reflections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 2c28b9a..71b2341 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -385,7 +385,8 @@ class ReflectionFitter(FRFilter):
              opt_info) = reflection_param_minimization(clean_data[k], dly_range, self.freqs, amp, dly, phs, fix_amp=fix_amp, fix_dly=fix_dly,
                                                        fix_phs=fix_phs, clean_model=clean_model[k], clean_flags=clean_flags[k] + rflags,
                                                        method=method, tol=tol, maxiter=maxiter, window=window, alpha=alpha,
-                                                       edgecut_hi=edgecut_hi, edgecut_low=edgecut_low, zeropad=zeropad)
+                                                       edgecut_hi=edgecut_hi, edgecut_low=edgecut_low, zeropad=zeropad,
+                                                       skip_frac=skip_frac)
 
             amp = np.reshape(opt_amp, amp.shape)
             dly = np.reshape(opt_dly, dly.shape)
-- 
2.43.0


From 6aa00b34ddf25668eaeae06daebd37d5732c7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 18/57] fix: VisClean.vis_clean honours output_postfix

---
 hera_cal/vis_clean.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 1c4981c..e8cc9e7 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -804,12 +804,13 @@ class VisClean:
                 self.fourier_filter(filter_centers=filter_centers, filter_half_widths=filter_half_widths,
                                     keys=[k], mode=mode, suppression_factors=suppression_factors,
                                     x=x, data=data, flags=flags, wgts=wgts, output_prefix=output_prefix,
-                                    ax=ax, cache=cache, skip_wgt=skip_wgt, verbose=verbose,
+                                    output_postfix=output_postfix, ax=ax, cache=cache, skip_wgt=skip_wgt, verbose=verbose,
                                     overwrite=overwrite, **filter_kwargs)
             else:
                 self.fourier_filter(filter_centers=filter_centers, filter_half_widths=filter_half_widths,
                                     keys=[k], mode=mode, tol=tol, x=x, data=data, flags=flags, wgts=wgts,
-                                    output_prefix=output_prefix, ax=ax, skip_wgt=skip_wgt, verbose=verbose,
+                                    output_prefix=output_prefix, output_postfix=output_postfix, ax=ax,
+                                    skip_wgt=skip_wgt, verbose=verbose,
                                     overwrite=overwrite, **filter_kwargs)
 
     def fourier_filter(self, filter_centers, filter_half_widths, mode='clean',
-- 
2.43.0


From 4b36dcd516f126ec9ef169695c6de21026d16f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 19/57] fix: init_HERACal honours gain_convention and cal_style

---
 hera_cal/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 9c73fd6..bc91497 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1230,7 +1230,7 @@ class HERAData(UVData):
             HERACal object with gain, flag, quality, and total_quality arrays initialized (to 1, True, 0, and 0)
         '''
         # create UVCal object from self
-        uvc = UVCal().initialize_from_uvdata(self, gain_convention='divide', cal_style='redundant')
+        uvc = UVCal().initialize_from_uvdata(self, gain_convention=gain_convention, cal_style=cal_style)
 
         # create empty data arrays (using future array shapes, which is default true for initialize_from_uvdata)
         uvc.gain_array = np.ones((uvc.Nants_data, uvc.Nfreqs, uvc.Ntimes, uvc.Njones), dtype=np.complex64)
-- 
2.43.0


From d4895e1fa14801b6d50a3a91122003b27161a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:39 +0000
Subject: [PATCH 20/57] fix: get_matched_files(as_paths=True) returns paths

---
 hera_cal/lst_stack/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 8a2248f..b9df642 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -559,7 +559,7 @@ class LSTBinConfigurator:
                 atol=self.atol,
             )
             for i, m in enumerate(matched):
-                matched_files[i].append(m)
+                matched_files[i].append([fl.path for fl in m] if as_paths else m)
 
         return matched_files
 
-- 
2.43.0


From e513c2d7be1feb9856ca6965c08b36975772a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:46 +0000
Subject: [PATCH 21/57] fix: delay_lincal(solve_offsets=False) no longer solves
 for phase offsets

---
 hera_cal/abscal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 8e0651c..20db053 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -724,6 +724,9 @@ def delay_lincal(model, data, wgts=None, refant=None, df=9.765625e4, f0=0., solv
     fit = sol.solve()
     echo("...finished linsolve", verbose=verbose)
 
+    if not solve_offsets:
+        return fit
+
     # setup linsolve parameters
     ydata = odict(zip(keys, ratio_offsets))
     eqns = odict([(k, 'phi_{}_{} - phi_{}_{}'.format(k[0], split_pol(k[2])[0],
-- 
2.43.0


From 8241db1cca8f0c105fd8d33e7fb0f67288c64c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 22/57] fix: gains_from_autos applies xthin when given a
 DataContainer

---
 hera_cal/tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/tempcal.py b/hera_cal/tempcal.py
index 89afddf..3dcaaf1 100644
--- a/hera_cal/tempcal.py
+++ b/hera_cal/tempcal.py
@@ -73,7 +73,7 @@ def gains_from_autos(data, times, flags=None, smooth_frate=1.0, nl=1e-10,
             utils.echo("starting {}".format(key), verbose=verbose)
             gkey = utils.split_bl(key)[0]
             g, gf, s = gains_from_autos(data[key], times, flags=flags[key], smooth_frate=smooth_frate,
-                                        nl=nl, Nmirror=Nmirror, edgeflag=edgeflag, freq_avg=freq_avg, verbose=False)
+                                        nl=nl, Nmirror=Nmirror, edgeflag=edgeflag, xthin=xthin, freq_avg=freq_avg, verbose=False)
             gains[gkey], gflags[gkey], smooth[key] = g, gf, s
         return gains, gflags, smooth
 
-- 
2.43.0


From 2e86e7f76306006e90d5bdf0330d1185a9ec8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 23/57] fix: normalize_tempgains(dict, inplace=True) stops
 after normalizing the dict

---
 hera_cal/tempcal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/tempcal.py b/hera_cal/tempcal.py
index 3dcaaf1..5a16910 100644
--- a/hera_cal/tempcal.py
+++ b/hera_cal/tempcal.py
@@ -215,6 +215,7 @@ def normalize_tempgains(gains, times, norm_time, inplace=False):
             ngains[k] = normalize_tempgains(gains[k], times, norm_time)
         if not inplace:
             return ngains
+        return
 
     # operate on ndarray
     tind = np.argmin(np.abs(times - norm_time))
-- 
2.43.0


From 427b0b4c850b46591cb30696e97b5e25a73b7acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 24/57] fix: post_redcal_abscal_run uses its tol when grouping
 baselines for the noise weights

---
 hera_cal/abscal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 20db053..a2d7ea6 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -4274,7 +4274,7 @@ def post_redcal_abscal_run(data_file, redcal_file, model_files, raw_auto_file=No
                             # build data weights based on inverse noise variance and nsamples and flags
                             data_wgts = build_data_wgts(flags, nsamples, model_flags, autocorrs, auto_flags,
                                                         times_by_bl=hd.times_by_bl, df=np.median(np.ediff1d(data.freqs)),
-                                                        data_is_redsol=data_is_redsol, gain_flags=rc_flags_subset, antpos=hd.data_antpos)
+                                                        data_is_redsol=data_is_redsol, gain_flags=rc_flags_subset, tol=tol, antpos=hd.data_antpos)
 
                             # run absolute calibration to get the gain updates
                             delta_gains = post_redcal_abscal(model, data, data_wgts, rc_flags_subset, edge_cut=edge_cut, tol=tol,
@@ -4284,7 +4284,7 @@ def post_redcal_abscal_run(data_file, redcal_file, model_files, raw_auto_file=No
                             calibrate_in_place(autocorrs, delta_gains)
                             chisq_wgts = build_data_wgts(flags, nsamples, model_flags, autocorrs, auto_flags,
                                                          times_by_bl=hd.times_by_bl, df=np.median(np.ediff1d(data.freqs)),
-                                                         data_is_redsol=data_is_redsol, gain_flags=rc_flags_subset, antpos=hd.data_antpos)
+                                                         data_is_redsol=data_is_redsol, gain_flags=rc_flags_subset, tol=tol, antpos=hd.data_antpos)
                             total_qual, nObs, quals, nObs_per_ant = utils.chisq(data, model, chisq_wgts,
                                                                                 gain_flags=rc_flags_subset, split_by_antpol=True)
 
-- 
2.43.0


From 4823340a5e860406b17924e4566679c0deb69887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 25/57] fix: lstbin_absolute_calibration expands and smooths
 gains with the requested flags (use_inpainted_data)

---
 hera_cal/lst_stack/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 42d0048..62d1e64 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -679,6 +679,7 @@ def lstbin_absolute_calibration(
         smooth_gains=smooth_gains,
         smoothing_scale=smoothing_scale,
         eigenval_cutoff=eigenval_cutoff,
+        use_inpainted_data=use_inpainted_data,
     )
 
     # Iterate for each baseline in the stack and calibrate out gains
-- 
2.43.0


From 6fea616c992a434ebe248a696477b4dea232f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:51 +0000
Subject: [PATCH 26/57] fix: write_vis(overwrite=False) no longer overwrites an
 existing file

---
 hera_cal/io.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index bc91497..af6856e 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2304,6 +2304,9 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
 
     # write to file
     if write_file:
+        if filetype not in ['miriad', 'uvh5']:
+            raise AttributeError("didn't recognize filetype: {}".format(filetype))
+
         # check output
         fname = os.path.join(outdir, fname)
         if os.path.exists(fname) and overwrite is False:
@@ -2313,12 +2316,10 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
             if verbose:
                 print("saving {}".format(fname))
 
-        if filetype == 'miriad':
-            uvd.write_miriad(fname, clobber=True)
-        elif filetype == 'uvh5':
-            uvd.write_uvh5(fname, clobber=True)
-        else:
-            raise AttributeError("didn't recognize filetype: {}".format(filetype))
+            if filetype == 'miriad':
+                uvd.write_miriad(fname, clobber=True)
+            else:
+                uvd.write_uvh5(fname, clobber=True)
 
     if return_uvd:
         return uvd
-- 
2.43.0


From 2512dcbe023056fa9595d4676d0fa1d2bfe1bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:51 +0000
Subject: [PATCH 27/57] fix: combine_calfits(overwrite=False) checks the file
 it is about to write

---
 hera_cal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 5298f90..4fcf756 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -756,7 +756,7 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
         outdir = "./"
 
     output_fname = os.path.join(outdir, fname)
-    if os.path.exists(fname) and overwrite is False:
+    if os.path.exists(output_fname) and overwrite is False:
         raise IOError("{} exists, not overwriting".format(output_fname))
 
     # iterate over files
-- 
2.43.0


From 37d851add4c9dadd2044b294b579c2017a767a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:51 +0000
Subject: [PATCH 28/57] fix: iterate_over_bls with several files and
 chunk_by_redundant_group uses all polarizations

---
 hera_cal/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index af6856e..1999ae9 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1158,7 +1158,7 @@ class HERAData(UVData):
                         data_antpos.update(self.data_antpos[k])
                     pols = set({})
                     for k in self.pols:
-                        pols.union(set(self.pols[k]))
+                        pols = pols.union(set(self.pols[k]))
                     pols = list(pols)
                 else:
                     data_antpos = self.data_antpos
-- 
2.43.0


From ab9e361704bd7d32522a44c98da0c36ebb177d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:08 +0000
Subject: [PATCH 29/57] fix: lst_bin_files checks for existing output in
 outdir, not in the working directory

---
 hera_cal/lstbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/lstbin.py b/hera_cal/lstbin.py
index 9d8621e..ddff567 100644
--- a/hera_cal/lstbin.py
+++ b/hera_cal/lstbin.py
@@ -968,7 +968,7 @@ def lst_bin_files(data_files, input_cals=None, dlst=None, verbose=True, ntimes_p
         std_file = "zen." + file_ext.format(**fkwargs)
 
         # check for overwrite
-        if os.path.exists(bin_file) and overwrite is False:
+        if os.path.exists(os.path.join(outdir, bin_file)) and overwrite is False:
             utils.echo("{} exists, not overwriting".format(bin_file), verbose=verbose)
             continue
         # write to file
-- 
2.43.0


From e0f9b885e4b2d4b1f006f1db98f432466958cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:41 +0000
Subject: [PATCH 30/57] fix: HERADataFastReader runs the sanity checks it is
 asked for

---
 hera_cal/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 1999ae9..75d273b 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1474,7 +1474,7 @@ class HERADataFastReader():
         # load metadata only
         rv = {'info': {}}
         if read_metadata:
-            rv = read_hera_hdf5(self.filepaths, read_data=False, read_flags=False, read_nsamples=False, check=False)
+            rv = read_hera_hdf5(self.filepaths, read_data=False, read_flags=False, read_nsamples=False, check=check)
             self._adapt_metadata(rv['info'], skip_lsts=skip_lsts)
 
         # update metadata internally
-- 
2.43.0


From 9dfc26f7afd883900a2925ceaa65302e882b09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:55 +0000
Subject: [PATCH 31/57] fix: post_redcal_abscal_run(clobber=False) no longer
 overwrites an existing delta file

---
 hera_cal/abscal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index a2d7ea6..7a9ac12 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -4320,7 +4320,7 @@ def post_redcal_abscal_run(data_file, redcal_file, model_files, raw_auto_file=No
         delta_gains = {ant: abscal_gains[ant] / rc_gains[ant] for ant in abscal_gains}
         hcdelta.update(gains=delta_gains)
         assert output_file_delta is not None, "output_file_delta must be specified if write_delta_gains=True"
-        hcdelta.write_calfits(output_file_delta, clobber=True)
+        hcdelta.write_calfits(output_file_delta, clobber=clobber)
     return hc
 
 
-- 
2.43.0


From 2bceca014d7ac8a1377d1336d32b0da0c45ae8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:55 +0000
Subject: [PATCH 32/57] fix: VisClean.write_data(filetype='uvfits',
 overwrite=False) refuses to replace an existing file

---
 hera_cal/vis_clean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index e8cc9e7..1a8e5bd 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -7,6 +7,7 @@ from collections import OrderedDict as odict
 import datetime
 from hera_filters import dspec
 import argparse
+import os
 from astropy import constants
 import copy
 import fnmatch
@@ -721,6 +722,8 @@ class VisClean:
             else:
                 hd.write_uvh5(filename, clobber=overwrite, **kwargs)
         elif filetype == 'uvfits':
+            if os.path.exists(filename) and not overwrite:
+                raise OSError("{} exists; use overwrite=True to replace it.".format(filename))
             hd.write_uvfits(filename, **kwargs)
         else:
             raise ValueError("filetype {} not recognized".format(filetype))
-- 
2.43.0


From 453d66ec40de7a005b2c07713e4683fa48c69d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 33/57] fix: auto_reflection_run.py passes dly_ranges under the
 name the routine accepts

---
 scripts/auto_reflection_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/auto_reflection_run.py b/scripts/auto_reflection_run.py
index 0fb4943..00bd511 100644
--- a/scripts/auto_reflection_run.py
+++ b/scripts/auto_reflection_run.py
@@ -19,7 +19,7 @@ run_with_profiling(
     reflections.auto_reflection_run,
     a,
     data=a.data,
-    delay_ranges=a.dly_ranges,
+    dly_ranges=a.dly_ranges,
     output_fname=a.output_fname,
     **kwargs
 )
-- 
2.43.0


From 70c4d0ec4a2dcd34a745866b202b9afbf2dfce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 34/57] fix: apply_cal.py honours --a_priori_flags_yaml

---
 scripts/apply_cal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/apply_cal.py b/scripts/apply_cal.py
index 97c856d..61b6bb1 100755
--- a/scripts/apply_cal.py
+++ b/scripts/apply_cal.py
@@ -33,6 +33,7 @@ run_with_profiling(
     old_calibration=args.old_cal,
     flag_file=args.flag_file,
     flag_filetype=args.flag_filetype,
+    a_priori_flags_yaml=args.a_priori_flags_yaml,
     flag_nchan_low=args.flag_nchan_low,
     flag_nchan_high=args.flag_nchan_high,
     spw_range=args.spw_range,
-- 
2.43.0


From 8aeb6b1c9ebcfcdbb021168c50d9057b4675b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 35/57] fix: post_redcal_abscal_run.py honours
 --write_delta_gains and --output_file_delta

---
 scripts/post_redcal_abscal_run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/post_redcal_abscal_run.py b/scripts/post_redcal_abscal_run.py
index 734ae55..470b4ed 100755
--- a/scripts/post_redcal_abscal_run.py
+++ b/scripts/post_redcal_abscal_run.py
@@ -22,5 +22,6 @@ run_with_profiling(
     data_solar_horizon=a.data_solar_horizon, model_solar_horizon=a.model_solar_horizon,
     min_bl_cut=a.min_bl_cut, max_bl_cut=a.max_bl_cut, edge_cut=a.edge_cut, tol=a.tol,
     phs_max_iter=a.phs_max_iter, phs_conv_crit=a.phs_conv_crit, clobber=a.clobber,
-    add_to_history=' '.join(sys.argv), verbose=a.verbose, skip_abs_amp_lincal=a.skip_abs_amp_lincal
+    add_to_history=' '.join(sys.argv), verbose=a.verbose, skip_abs_amp_lincal=a.skip_abs_amp_lincal,
+    write_delta_gains=a.write_delta_gains, output_file_delta=a.output_file_delta
 )
-- 
2.43.0


From 1cb62453bed8202684290d73b908f50797476637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 36/57] fix: smooth_cal --eigenval_cutoff is a number

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 1c66b72..c7973b7 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1376,7 +1376,7 @@ def smooth_cal_argparser():
     flt_opts.add_argument("--alpha", type=float, default=.3, help='alpha parameter to use for Tukey window (ignored if window is not Tukey)')
     flt_opts.add_argument("--method", type=str, default='CLEAN', help='Algorithm used to smooth calibration solutions. Default is "CLEAN". "DPSS" uses \
                           discrete prolate spheroidal sequences to smooth calibration solutions.')
-    flt_opts.add_argument("--eigenval_cutoff", type=str, default=1e-9, help="sinc_matrix eigenvalue cutoff to use for included dpss modes. \
+    flt_opts.add_argument("--eigenval_cutoff", type=float, default=1e-9, help="sinc_matrix eigenvalue cutoff to use for included dpss modes. \
                           Only used when the filtering method is 'DPSS'")
     flt_opts.add_argument("--fit_method", type=str, default="pinv", help="Linear least-squares method used for fitting 2D DPSS modes. \
                           Only used when the filtering method is 'DPSS'")
-- 
2.43.0


From d114a77c7c1c7f03ec48d976280fcaefacf21dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 37/57] fix: smooth_cal_run.py --method clean reads --maxiter,
 the option the parser defines

---
 scripts/smooth_cal_run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/smooth_cal_run.py b/scripts/smooth_cal_run.py
index fc7d14a..7c6562a 100755
--- a/scripts/smooth_cal_run.py
+++ b/scripts/smooth_cal_run.py
@@ -29,7 +29,8 @@ if mode != 'clean':
 else:
     if a.window == 'tukey':  # set window kwargs
         filter_kwargs['alpha'] = a.alpha
-    filter_kwargs['max_iter'] = a.max_iter
+    if a.axis == 'freq':  # the 2D filter is given maxiter explicitly
+        filter_kwargs['maxiter'] = a.maxiter
 
 
 def run():
-- 
2.43.0


From af50746f0a9d61ed73cb2a350ff2e15efeb51b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 38/57] fix: smooth_cal_run.py --axis none no longer fails on a
 missing import

---
 scripts/smooth_cal_run.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/smooth_cal_run.py b/scripts/smooth_cal_run.py
index 7c6562a..92c5b75 100755
--- a/scripts/smooth_cal_run.py
+++ b/scripts/smooth_cal_run.py
@@ -12,6 +12,7 @@ See help for a more detailed explanation of the parameters.
 
 from hera_cal.smooth_cal import CalibrationSmoother, smooth_cal_argparser
 import sys
+import warnings
 from hera_cal._cli_tools import parse_args, run_with_profiling
 
 a = smooth_cal_argparser()
-- 
2.43.0


From 899b3af95477de006c25545db9d1cd553123da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 39/57] fix: tophat_frfilter_run.py --calfilelist none means no
 calibration

---
 scripts/tophat_frfilter_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/tophat_frfilter_run.py b/scripts/tophat_frfilter_run.py
index 4f80c1f..5c89135 100644
--- a/scripts/tophat_frfilter_run.py
+++ b/scripts/tophat_frfilter_run.py
@@ -31,8 +31,8 @@ else:
 # modify output file name to include index.
 spw_range = ap.spw_range
 # allow none string to be passed through to ap.calfile
-if isinstance(ap.calfilelist, str) and ap.calfile_list.lower() == 'none':
-    ap.calfile_list = None
+if isinstance(ap.calfilelist, str) and ap.calfilelist.lower() == 'none':
+    ap.calfilelist = None
 # Run Xtalk Filter
 run_with_profiling(
     frf.load_tophat_frfilter_and_write,
-- 
2.43.0


From e46f0d0d18de7fd3528bceea43c8e42259842fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 40/57] fix: tophat_frfilter_run.py honours --polarizations and
 --ninterleave

---
 scripts/tophat_frfilter_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tophat_frfilter_run.py b/scripts/tophat_frfilter_run.py
index 5c89135..23fa76d 100644
--- a/scripts/tophat_frfilter_run.py
+++ b/scripts/tophat_frfilter_run.py
@@ -63,6 +63,6 @@ run_with_profiling(
     model_rms_threshold=ap.model_rms_threshold,
     clean_flags_in_resid_flags=not (ap.clean_flags_not_in_resid_flags),
     pre_filter_modes_between_lobe_minimum_and_zero=ap.pre_filter_modes_between_lobe_minimum_and_zero,
-    param_file=ap.param_file,
+    param_file=ap.param_file, polarizations=ap.polarizations, ninterleave=ap.ninterleave,
     **filter_kwargs
 )
-- 
2.43.0


From 5a12b6479f0ea95090c37ab868cbfbcaf9d679d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:27 +0000
Subject: [PATCH 41/57] fix: tophat_frfilter_run.py --help no longer fails
 (ninterleave help text)

---
 hera_cal/frf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index ba0a54e..f0fc87a 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1675,7 +1675,7 @@ def tophat_frfilter_argparser(mode='clean'):
     desc = ("Number interleaved time subsets to split the data into ",
             "and apply independent fringe-rate filters. Default is 1 (no interleaved filters).",
             "This does not change the format of the output files but it does change the nature of their content.")
-    filt_options.add_argument("--ninterleave", default=1, type=int, help=desc)
+    filt_options.add_argument("--ninterleave", default=1, type=int, help=' '.join(desc))
 
     desc = ("File containing filter parameters. Parameter file must be yaml-readable ",
             "and contain two entries: filter_centers and filter_half_widths. Each of ",
-- 
2.43.0


From f4c1f29106538a9ae2edde97a5295db5c3e7765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:36 +0000
Subject: [PATCH 42/57] fix: tophat_frfilter_run.py and time_average.py --help
 no longer fail (help texts given as tuples)

---
 hera_cal/frf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index f0fc87a..e6f79bc 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1684,7 +1684,7 @@ def tophat_frfilter_argparser(mode='clean'):
             "correspond to a particular range of frequencies (chosen when making the ",
             "filter parameter file) and depend on baseline but not polarization (i.e., ",
             "the 'ee' and 'nn' polarizations will have the same filter for a given baseline.")
-    filt_options.add_argument("--param_file", default="", type=str, help=desc)
+    filt_options.add_argument("--param_file", default='', type=str, help="".join(desc))
 
     return ap
 
@@ -2088,7 +2088,7 @@ def time_average_argparser():
             "For example, output_data = 'averaged_data.uvh5' and ninterleave=2' ",
             "will result in two output files named 'averaged_data.interleave_0.uvh5 ",
             "and 'averaged_data.interleave_1.uvh5'")
-    ap.add_argument("--ninterleave", default=1, type=int, help=desc)
+    ap.add_argument("--ninterleave", default=1, type=int, help=''.join(desc))
     desc = ("If set to True, times of interleave files are set to averages over the interleavd sets.")
     ap.add_argument("--equalize_interleave_times", action="store_true", default=False, help=desc)
     desc = ("If set to True, truncate files with more excess interleaved times so all files have the same number of times.")
-- 
2.43.0


From 2b462f7a12ccc076209a111c73cd88db7add9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:19 +0000
Subject: [PATCH 43/57] fix: lstbin_run.py --flag_thresh reaches lst_bin

---
 hera_cal/lstbin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lstbin.py b/hera_cal/lstbin.py
index ddff567..4652a5d 100644
--- a/hera_cal/lstbin.py
+++ b/hera_cal/lstbin.py
@@ -652,7 +652,7 @@ def lst_bin_files(data_files, input_cals=None, dlst=None, verbose=True, ntimes_p
                   file_ext="{type}.{time:7.5f}.uvh5", outdir=None, overwrite=False, history='', lst_start=None,
                   atol=1e-6, weight_only_by_flags=False, sig_clip=True, sigma=5.0, min_N=5, flag_below_min_N=False, rephase=False,
                   output_file_select=None, Nbls_to_load=None, ignore_flags=False, average_redundant_baselines=False,
-                  bl_error_tol=1.0, include_autos=True, ex_ant_yaml_files=None, Nblgroups=None, **kwargs):
+                  bl_error_tol=1.0, include_autos=True, ex_ant_yaml_files=None, Nblgroups=None, flag_thresh=0.7, **kwargs):
     """
     LST bin a series of UVH5 files with identical frequency bins, but varying
     time bins. Output file meta data (frequency bins, antennas positions, time_array)
@@ -702,6 +702,7 @@ def lst_bin_files(data_files, input_cals=None, dlst=None, verbose=True, ntimes_p
                    between and within nights for purposes of average_redundant_baselines.
     ex_ant_yaml_files : list of strings, optional
         list of paths of yaml files specifying antennas to flag and remove from data on each night.
+    flag_thresh : type=float, minimum fraction of flagged points in an LST bin needed to flag the entire bin.
     kwargs : type=dictionary, keyword arguments to pass to io.write_vis()
 
     Result:
@@ -929,7 +930,7 @@ def lst_bin_files(data_files, input_cals=None, dlst=None, verbose=True, ntimes_p
             utils.echo("About to run LST binning...")
             (bin_lst, bin_data, flag_data, std_data,
              num_data) = lst_bin(data_list, lst_list, flags_list=flgs_list, dlst=dlst, begin_lst=begin_lst,
-                                 lst_low=fmin, lst_hi=fmax, truncate_empty=False, sig_clip=sig_clip,
+                                 lst_low=fmin, lst_hi=fmax, flag_thresh=flag_thresh, truncate_empty=False, sig_clip=sig_clip,
                                  weight_only_by_flags=weight_only_by_flags, nsamples_list=nsamples_list,
                                  sigma=sigma, min_N=min_N, flag_below_min_N=flag_below_min_N, rephase=rephase, freq_array=freq_array,
                                  antpos=antpos, bl_list=all_blgroup_baselines)
-- 
2.43.0


From bfe6e5e01333e58f3fb68119f767067289718ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:13 +0000
Subject: [PATCH 44/57] fix: RedSol created without gains no longer shares one
 gains dictionary between instances

---
 hera_cal/redcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index b5dffe8..0fde441 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -467,7 +467,7 @@ def remove_degen_gains(reds, gains, degen_gains=None, mode='phase', pol_mode='1p
 class RedSol():
     '''Object for containing solutions to redundant calibraton, namely gains and
     unique-baseline visibilities, along with a variety of convenience methods.'''
-    def __init__(self, reds, gains={}, vis={}, sol_dict={}):
+    def __init__(self, reds, gains=None, vis={}, sol_dict={}):
         '''Initializes RedSol object.
 
         Arguments:
@@ -480,6 +480,7 @@ class RedSol():
             sol_dict: optional dictionary. Maps both gain keys and visibilitity keys
                 to numpy arrays. Must be empty if gains or vis is not.
         '''
+        gains = {} if gains is None else gains
         if len(sol_dict) > 0:
             if (len(gains) > 0) or (len(vis) > 0):
                 raise ValueError('If sol_dict is not empty, both gains and vis must be.')
-- 
2.43.0


From c0bd8839351aacd6a884ca824b7978c3761e8d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 45/57] fix: add_radial_group keeps the order of the baselines
 instead of an order that depends on the string hash seed

---
 hera_cal/nucal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index d5e6a8c..ca657df 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -407,7 +407,7 @@ class RadialRedundancy:
             if is_same_orientation(group[0], bl, self.antpos, blvec_error_tol=self.blvec_error_tol) and bl[-1] == group[0][-1]:
                 index = self._radial_groups.index(self._mapped_spectral_reds[bl])
                 self._radial_groups[index] += group
-                self._radial_groups[index] = list(set(self._radial_groups[index]))
+                self._radial_groups[index] = list(dict.fromkeys(self._radial_groups[index]))
                 break
         else:
             self._radial_groups.append(group)
-- 
2.43.0


From 3289b28ff35e08724a5b4d080a19fa43292592b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 46/57] fix: combine_reds orders baselines with the same first
 antenna independently of the string hash seed

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 0fde441..74cdc44 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -325,7 +325,7 @@ def combine_reds(reds1, reds2, unfiltered_reds=None):
             else:
                 # otherwise, make a new group
                 reds1_sets.append(set(red2))
-        combined_reds = [list(red) for red in reds1_sets]
+        combined_reds = [sorted(red) for red in reds1_sets]
 
     # sort result in a useful way
     combined_reds = [sorted(red, key=lambda x: x[0]) for red in sorted(combined_reds, key=len, reverse=True)]
-- 
2.43.0


From 4f8dbdfcf90069385a0c10bf1c92f5475e7565bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 47/57] fix: match_baselines returns the baselines in an order
 independent of the string hash seed

---
 hera_cal/abscal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 7a9ac12..08f3cd0 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3872,7 +3872,7 @@ def match_baselines(data_bls, model_bls, data_antpos, model_antpos=None, pols=[]
                             or (reverse_bl(bl) in data_to_model_bl_map.values())]
 
     echo("Selected {} data baselines and {} model baselines to load.".format(len(data_bl_to_load), len(model_bl_to_load)), verbose=verbose)
-    return list(data_bl_to_load), list(model_bl_to_load), data_to_model_bl_map
+    return sorted(data_bl_to_load), sorted(model_bl_to_load), data_to_model_bl_map
 
 
 def build_data_wgts(data_flags, data_nsamples, model_flags, autocorrs, auto_flags, times_by_bl=None,
-- 
2.43.0


From 2ec21b00258429093ca0fd7dcc27fee6ddfc1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 48/57] fix: order of redundant groups in sky_frates no longer
 depends on the string hash seed

---
 hera_cal/frf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index e6f79bc..9748a9e 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -130,7 +130,7 @@ def _get_key_reds(antpos, keys):
     for bl in keys:
         if bl[-1] not in unique_pols:
             unique_pols.add(bl[-1])
-    reds = redcal.get_reds(antpos, pols=list(unique_pols), include_autos=True)
+    reds = redcal.get_reds(antpos, pols=sorted(unique_pols), include_autos=True)
     reds = redcal.filter_reds(reds, bls=keys)
     return reds
 
-- 
2.43.0


From 4f260199d71a57511695ad08b3decbce4bd8adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 49/57] fix: iterate_over_bls chunks multi-file data in an
 order independent of the string hash seed

---
 hera_cal/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 75d273b..7765b02 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1159,7 +1159,7 @@ class HERAData(UVData):
                     pols = set({})
                     for k in self.pols:
                         pols = pols.union(set(self.pols[k]))
-                    pols = list(pols)
+                    pols = sorted(pols)
                 else:
                     data_antpos = self.data_antpos
                     pols = self.pols
-- 
2.43.0


From e83dd626d243805dad55e9b50e9d2695ed699e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 50/57] fix: get_full_redundancies orders polarizations
 independently of the string hash seed

---
 hera_cal/red_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index badbc55..9c473e5 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -548,7 +548,7 @@ class RedundantGroups:
             if len(next(iter(self._bl_to_red_map.values()))) == 2:
                 pols = ()
             else:
-                pols = tuple({bl[2] for bl in self._red_key_to_bls_map.keys()})
+                pols = tuple(sorted({bl[2] for bl in self._red_key_to_bls_map.keys()}))
 
         return self.from_antpos(
             antpos=self.antpos,
-- 
2.43.0


From 7bf8bc76d2eeacacc78ff002121f02d37da9b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:58 +0000
Subject: [PATCH 51/57] fix: polarizations in lst_bin_files output file names
 are ordered independently of the string hash seed

---
 hera_cal/lstbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/lstbin.py b/hera_cal/lstbin.py
index 4652a5d..01d497a 100644
--- a/hera_cal/lstbin.py
+++ b/hera_cal/lstbin.py
@@ -961,7 +961,7 @@ def lst_bin_files(data_files, input_cals=None, dlst=None, verbose=True, ntimes_p
         # file in data ext
         fkwargs = {"type": "LST", "time": bin_lst[0] - dlst / 2.0}
         if "{pol}" in file_ext:
-            fkwargs['pol'] = '.'.join(bin_data.pols())
+            fkwargs['pol'] = '.'.join(sorted(bin_data.pols()))
 
         # configure filenames
         bin_file = "zen." + file_ext.format(**fkwargs)
-- 
2.43.0


From 0e8eaa87d7a44fca8d70af0fae53b3828c3f834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:06 +0000
Subject: [PATCH 52/57] fix: delay_filter partial loading indexes its baseline
 chunks by load number

---
 hera_cal/delay_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/delay_filter.py b/hera_cal/delay_filter.py
index 0c08a57..f567920 100644
--- a/hera_cal/delay_filter.py
+++ b/hera_cal/delay_filter.py
@@ -201,7 +201,7 @@ def load_delay_filter_and_write(datafile_list, baseline_list=None, calfile_list=
             if apply_flag_to_nsample:
                 logger.info("  Applying flags to nsample arrays")
                 # Modify self.hd.nsamples
-                for bl in baseline_list[i:i + Nbls_per_load]:
+                for bl in baseline_list[i * Nbls_per_load:(i + 1) * Nbls_per_load]:
                     _nsample = np.copy(df.hd.get_nsamples(bl))
                     _nsample[df.hd.get_flags(bl)] = 0
                     if _nsample.ndim == 2:
-- 
2.43.0


From 633107651fb4ee113cf274ede6f781633124d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:06 +0000
Subject: [PATCH 53/57] fix: redcal_iteration slices only the integrations
 between start_ind and stop_ind

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 74cdc44..62b87d5 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1883,7 +1883,7 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
             nInt_to_load = nTimes
         start_ind = np.min(np.arange(nTimes)[~solar_flagged])
         stop_ind = np.max(np.arange(nTimes)[~solar_flagged])
-        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, nTimes, nInt_to_load)]
+        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, stop_ind + 1 - start_ind, nInt_to_load)]
 
         for tSlice in tSlices:
             # get DataContainers, performing i/o if necessary
-- 
2.43.0


From b9a7fcaef2bc08a1782b7a4e75c5f5eaf4c1611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:06 +0000
Subject: [PATCH 54/57] fix: chisq counts each observation per antenna
 polarization once

---
 hera_cal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 4fcf756..616e6c7 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1060,7 +1060,7 @@ def chisq(data, model, data_wgts=None, gains=None, gain_flags=None, split_by_ant
                 if ap1 in chisq:
                     assert ap1 in nObs
                     chisq[ap1] = chisq[ap1] + chisq_here
-                    nObs[ap1] += nObs[ap1] + nObs_from_wgts
+                    nObs[ap1] = nObs[ap1] + nObs_from_wgts
                 else:
                     assert ap1 not in nObs
                     chisq[ap1] = copy.deepcopy(chisq_here)
-- 
2.43.0


From 75641f02eafe956d239ab4e3fd6734efa6770aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:06 +0000
Subject: [PATCH 55/57] fix: redundantly averaged apply_cal outputs record
 add_to_history

---
 hera_cal/apply_cal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 07367fa..96263f8 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -977,6 +977,7 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
                 hd_red.vis_units = hc.gain_scale
             if vis_units is not None:
                 hd_red.vis_units = vis_units
+            hd_red.history += add_to_history
             hd_red.write_uvh5(data_outfilename, clobber=clobber)
     # full data loading and writing
     else:
@@ -1066,6 +1067,7 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
                             hd_red.vis_units = hc.gain_scale
                         if vis_units is not None:
                             hd_red.vis_units = vis_units
+                        hd_red.history += add_to_history
                         hd_red.write_uvh5(outfile, clobber=clobber)
                     else:
                         raise NotImplementedError("redundant averaging only supported for uvh5 outputs.")
-- 
2.43.0


From 5fb36861d2c40c0f63021b5e3cdee66801a85c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:06 +0000
Subject: [PATCH 56/57] fix: VisClean.write_data with partial_write records
 add_to_history

---
 hera_cal/vis_clean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 1a8e5bd..5fb68c6 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -717,7 +717,8 @@ class VisClean:
             hd.write_miriad(filename, clobber=overwrite, **kwargs)
         elif filetype == 'uvh5':
             if partial_write:
-                hd.partial_write(filename, clobber=overwrite, inplace=True, **kwargs)
+                hd.partial_write(filename, clobber=overwrite, inplace=True,
+                                 add_to_history=utils.history_string(add_to_history), **kwargs)
                 self.hd._writers.update(hd._writers)
             else:
                 hd.write_uvh5(filename, clobber=overwrite, **kwargs)
-- 
2.43.0


From b1087e6e4e9c336cc6559245c5778042d5acc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 57/57] fix: make the noise-matrix cache key depend on the DPSS
 basis it is computed from

---
 hera_cal/lst_stack/averaging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index d51451c..db8631b 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -797,6 +797,7 @@ def _get_CNinv_1sample(
             filter_half_widths=filter_half_widths,
             x=freqs[band],
             w=(base_noise_var[night_index, band] * mask[night_index, band]),
+            basis_shape=basis.shape,
         )
 
         # If key exists in cache, load in filter and inverse
-- 
2.43.0

