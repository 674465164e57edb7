From 4620bbdd87db9f8ab42379caba1089223977f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:30 +0000
Subject: [PATCH 001/130] fix: select by freq_chans keeps exactly the requested
 channels

Channel numbers were translated to frequencies and back, so on data whose
spectral windows share frequencies (overlapping windows, flex-pol) every
channel with the same frequency was kept. Also one channel per window raised
an error from the spacing test and a tuple of channels was not accepted.
---
 src/pyuvdata/uvdata/uvdata.py | 55 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e577c8a..e84753f 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6873,44 +6873,45 @@ class UVData(UVBase):
 
             blt_inds = sorted(set(blt_inds))
 
-        if freq_chans is not None:
-            freq_chans = utils.tools._get_iterable(freq_chans)
-            if np.array(freq_chans).ndim > 1:
-                freq_chans = np.array(freq_chans).flatten()
-            if frequencies is None:
-                frequencies = self.freq_array[freq_chans]
-            else:
-                frequencies = utils.tools._get_iterable(frequencies)
-                frequencies = np.sort(
-                    list(set(frequencies) | set(self.freq_array[freq_chans]))
-                )
-
-        if frequencies is not None:
-            frequencies = utils.tools._get_iterable(frequencies)
-            if np.array(frequencies).ndim > 1:
-                frequencies = np.array(frequencies).flatten()
+        if frequencies is not None or freq_chans is not None:
             if n_selects > 0:
                 history_update_string += ", frequencies"
             else:
                 history_update_string += "frequencies"
             n_selects += 1
 
-            freq_arr_use = self.freq_array
-            # Check and see that all requested freqs are available
-            freq_check = np.isin(frequencies, freq_arr_use)
-            if not np.all(freq_check):
-                raise ValueError(
-                    "Frequency %g is not present in the freq_array"
-                    % frequencies[np.where(~freq_check)[0][0]]
+            freq_inds = np.zeros(0, dtype=np.int64)
+            if freq_chans is not None:
+                # Channel numbers identify channels uniquely, frequencies need not
+                # (e.g. overlapping spectral windows), so use the channels directly.
+                freq_chans = np.asarray(utils.tools._get_iterable(freq_chans)).flatten()
+                freq_inds = np.arange(self.Nfreqs)[freq_chans]
+
+            if frequencies is not None:
+                frequencies = np.asarray(
+                    utils.tools._get_iterable(frequencies)
+                ).flatten()
+                # Check and see that all requested freqs are available
+                freq_check = np.isin(frequencies, self.freq_array)
+                if not np.all(freq_check):
+                    raise ValueError(
+                        "Frequency %g is not present in the freq_array"
+                        % frequencies[np.where(~freq_check)[0][0]]
+                    )
+                freq_inds = np.concatenate(
+                    (freq_inds, np.where(np.isin(self.freq_array, frequencies))[0])
                 )
-            freq_inds = np.where(np.isin(freq_arr_use, frequencies))[0]
+            freq_inds = np.unique(freq_inds)
 
-            if len(frequencies) > 1:
+            if len(freq_inds) > 1:
                 freq_ind_separation = freq_inds[1:] - freq_inds[:-1]
                 freq_ind_separation = freq_ind_separation[
                     np.diff(self.flex_spw_id_array[freq_inds]) == 0
                 ]
-                if not utils.tools._test_array_constant(freq_ind_separation):
+                if freq_ind_separation.size == 0:
+                    # only one channel per spectral window, so there is no spacing
+                    pass
+                elif not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
                         "will make it impossible to write this data out to "
@@ -6923,7 +6924,7 @@ class UVData(UVBase):
                         "some file types."
                     )
 
-            freq_inds = sorted(set(freq_inds))
+            freq_inds = freq_inds.tolist()
         else:
             freq_inds = None
 
-- 
2.43.0


From e793d047f40d1c906583dd0052969bf762eee811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:42 +0000
Subject: [PATCH 002/130] fix: select with keep_all_metadata=False also selects
 eq_coeffs along antennas

It raised an error on any object with eq_coeffs set.
---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e84753f..d2eed00 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7127,6 +7127,9 @@ class UVData(UVBase):
             elif key == "Nants_telescope":
                 # Count the number of unique ants after ant-based selection
                 self.telescope.Nants = len(ind_arr)
+                # eq_coeffs is on this object but has an antenna axis
+                if self.eq_coeffs is not None:
+                    self.eq_coeffs = self.eq_coeffs.take(ind_arr, axis=0)
 
         # Update the history string
         self.history += history_update_string
-- 
2.43.0


From fe6dfbb2270cb1269658bf2a14558ad3bbf4ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:10 +0000
Subject: [PATCH 003/130] fix: polarization conversions do not hand out their
 cached list

Modifying a list returned by e.g. polnum2str or get_pols changed the result of
every later call with the same argument.
---
 src/pyuvdata/utils/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/pol.py b/src/pyuvdata/utils/pol.py
index 3c01de1..30d41f6 100644
--- a/src/pyuvdata/utils/pol.py
+++ b/src/pyuvdata/utils/pol.py
@@ -130,12 +130,14 @@ def np_cache(function):
     @wraps(function)
     def wrapper(pol, x_orientation=None):
         try:
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
         except TypeError:
             if isinstance(pol, Iterable):
                 # Assume the reason that we got a type error is that pol was an array.
                 pol = tuple(pol)
-            return function(pol, x_orientation=x_orientation)
+            out = function(pol, x_orientation=x_orientation)
+        # never hand out the cached list itself, the caller may modify it
+        return list(out) if isinstance(out, list) else out
 
     # copy lru_cache attributes over too
     wrapper.cache_info = function.cache_info
-- 
2.43.0


From c5e85cb2b3244e72fd196289f61c7a20a014cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:10 +0000
Subject: [PATCH 004/130] fix: polarizations in ant_str are found when
 x_orientation is set

get_pols returns e.g. 'ee' then, so '1x_2x' was taken to have a polarization
that is not in the data and all polarizations were kept.
---
 src/pyuvdata/utils/bls.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/bls.py b/src/pyuvdata/utils/bls.py
index 444482f..4c17ec8 100644
--- a/src/pyuvdata/utils/bls.py
+++ b/src/pyuvdata/utils/bls.py
@@ -194,7 +194,13 @@ def parse_ants(uv, ant_str, *, print_toggle=False, x_orientation=None):
     polarizations = []
     ants_data = uv.get_ants()
     ant_pairs_data = uv.get_antpairs()
-    pols_data = uv.get_pols()
+    # The strings from get_pols depend on x_orientation (e.g. "ee"), the ones in
+    # ant_str do not (e.g. "xx"), so put them in the same form.
+    pols_data = polnum2str(
+        polstr2num(
+            uv.get_pols(), x_orientation=getattr(uv.telescope, "x_orientation", None)
+        )
+    )
     warned_ants = []
     warned_pols = []
 
-- 
2.43.0


From 25fb175ddae6c8335a14978626c4424c32b8811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 005/130] fix: adding UVData objects puts each cell of the
 second object on its own labels

Elements of an axis of other that are new and ones that overlap were written in an
order that differed from the order on other, and the labels used to sort the result
were not updated when this was reordered. Scan numbers and eq_coeffs were not
combined at all.
---
 src/pyuvdata/uvdata/uvdata.py | 76 +++++++++++++----------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index d2eed00..0eb0c61 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5547,41 +5547,24 @@ class UVData(UVBase):
         # weird, one-off process (i.e., nothing is cat'd across a particular axis)
         this._consolidate_phase_center_catalogs(other=other, ignore_name=ignore_name)
 
-        # Next, we want to make sure that the ordering of the _overlapping_ data is
-        # the same, so that things can get plugged together in a sensible way.
-        if len(this_blts_ind) != 0:
-            this_argsort = np.argsort(this_blts_ind)
-            other_argsort = np.argsort(other_blts_ind)
-
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nblts)
-                temp_ind[this_blts_ind[this_argsort]] = temp_ind[
-                    this_blts_ind[other_argsort]
-                ]
-
-                this.reorder_blts(order=temp_ind)
-
-        if len(this_freq_ind) != 0:
-            this_argsort = np.argsort(this_freq_ind)
-            other_argsort = np.argsort(other_freq_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nfreqs)
-                temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                    this_freq_ind[other_argsort]
-                ]
-
-                this.reorder_freqs(channel_order=temp_ind)
+        # Next, work out where each element of the axes of other goes on the axes of
+        # this: overlapping elements go where the matching element of this is, new
+        # elements are added to the end (in the order they have on other).
+        this_ind = np.nonzero(np.isin(this_blts, other_blts))[0]
+        other_ind = np.nonzero(np.isin(other_blts, this_blts))[0]
+        blt_t2o = np.zeros(other.Nblts, dtype=int)
+        blt_t2o[other_ind[np.argsort(other_blts[other_ind], kind="stable")]] = this_ind[
+            np.argsort(this_blts[this_ind], kind="stable")
+        ]
+        blt_t2o[bnew_inds] = this.Nblts + np.arange(len(bnew_inds))
 
-        if len(this_pol_ind) != 0:
-            this_argsort = np.argsort(this_pol_ind)
-            other_argsort = np.argsort(other_pol_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Npols)
-                temp_ind[this_pol_ind[this_argsort]] = temp_ind[
-                    this_pol_ind[other_argsort]
-                ]
+        freq_t2o = np.zeros(other.Nfreqs, dtype=int)
+        freq_t2o[other_freq_ind] = this_freq_ind
+        freq_t2o[fnew_inds] = this.Nfreqs + np.arange(len(fnew_inds))
 
-                this.reorder_pols(temp_ind)
+        pol_t2o = np.zeros(other.Npols, dtype=int)
+        pol_t2o[other_pol_ind] = this_pol_ind
+        pol_t2o[pnew_inds] = this.Npols + np.arange(len(pnew_inds))
 
         # Pad out self to accommodate new data
         blt_order = None
@@ -5630,6 +5613,12 @@ class UVData(UVBase):
             this.phase_center_id_array = np.concatenate(
                 [this.phase_center_id_array, other.phase_center_id_array[bnew_inds]]
             )[blt_order]
+            if this.scan_number_array is not None and (
+                other.scan_number_array is not None
+            ):
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[bnew_inds]]
+                )[blt_order]
 
         f_order = None
         if len(fnew_inds) > 0:
@@ -5639,6 +5628,10 @@ class UVData(UVBase):
             this.channel_width = np.concatenate(
                 [this.channel_width, other.channel_width[fnew_inds]]
             )
+            if this.eq_coeffs is not None and other.eq_coeffs is not None:
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs, other.eq_coeffs[:, fnew_inds]], axis=1
+                )
 
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array, other.flex_spw_id_array[fnew_inds]]
@@ -5707,21 +5700,6 @@ class UVData(UVBase):
                 ).astype(np.bool_)
 
         # Now populate the data
-        pol_t2o = np.nonzero(
-            np.isin(this.polarization_array, other.polarization_array)
-        )[0]
-        this_freqs = this.freq_array
-        other_freqs = other.freq_array
-
-        freq_t2o = np.zeros(this_freqs.shape, dtype=bool)
-        for spw_id in set(this.spw_array).intersection(other.spw_array):
-            mask = this.flex_spw_id_array == spw_id
-            freq_t2o[mask] |= np.isin(
-                this_freqs[mask], other_freqs[other.flex_spw_id_array == spw_id]
-            )
-        freq_t2o = np.nonzero(freq_t2o)[0]
-        blt_t2o = np.nonzero(np.isin(this_blts, other_blts))[0]
-
         if not self.metadata_only:
             this.data_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.data_array
             this.nsample_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.nsample_array
@@ -5746,6 +5724,8 @@ class UVData(UVBase):
             this.freq_array = this.freq_array[f_order]
             this.channel_width = this.channel_width[f_order]
             this.flex_spw_id_array = this.flex_spw_id_array[f_order]
+            if this.eq_coeffs is not None and other.eq_coeffs is not None:
+                this.eq_coeffs = this.eq_coeffs[:, f_order]
 
         if len(pnew_inds) > 0:
             this.polarization_array = this.polarization_array[p_order]
-- 
2.43.0


From 466b936db29e88d52a783b04e8636fb33cc249ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 006/130] fix: fast_concat keeps phase centers, scan numbers,
 eq_coeffs and flex-pol labels

With more than one other object the phase center IDs of the earlier ones went stale
as later catalogs were merged, and the catalogs of some of the other objects were
changed.
---
 src/pyuvdata/uvdata/uvdata.py | 63 ++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0eb0c61..9c590ff 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5965,18 +5965,22 @@ class UVData(UVBase):
                 strict_uvw_antpos_check=strict_uvw_antpos_check,
             )
 
-        # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
-        uv_list = [this] + other
-        while len(uv_list) > 1:
-            for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                uv1._consolidate_phase_center_catalogs(
-                    other=uv2, ignore_name=ignore_name
-                )
-            uv_list = uv_list[0::2]
-        # Because self was at the beginning of the list,
-        # all the phase centers are merged into it at the end of this loop
+        # update the phase_center_catalog to make it consistent across objects. The
+        # IDs on this can change each time another catalog is merged in, so only work
+        # out the IDs to use for the other objects once all of them are merged.
+        for obj in other:
+            this._consolidate_phase_center_catalogs(other=obj, ignore_name=ignore_name)
+        other_pc_ids = []
+        for obj in other:
+            obj_ids = np.zeros_like(obj.phase_center_id_array)
+            for cat_id, cat_entry in obj.phase_center_catalog.items():
+                new_id, _ = utils.phase_center_catalog.look_in_catalog(
+                    this.phase_center_catalog,
+                    phase_dict=cat_entry,
+                    ignore_name=ignore_name,
+                )
+                obj_ids[obj.phase_center_id_array == cat_id] = new_id
+            other_pc_ids.append(obj_ids)
 
         compatibility_params = ["_vis_units", "_telescope"]
 
@@ -6038,9 +6042,14 @@ class UVData(UVBase):
                         )
 
         # Actually check compatibility parameters
-        for obj in other:
+        for obj, obj_pc_ids in zip(other, other_pc_ids):
             for a in compatibility_params:
-                params_match = getattr(this, a) == getattr(obj, a)
+                if a == "_phase_center_id_array":
+                    params_match = np.array_equal(
+                        this.phase_center_id_array, obj_pc_ids
+                    )
+                else:
+                    params_match = getattr(this, a) == getattr(obj, a)
                 if not params_match:
                     msg = (
                         "UVParameter "
@@ -6060,6 +6069,18 @@ class UVData(UVBase):
             this.flex_spw_id_array = np.concatenate(
                 [this.flex_spw_id_array] + [obj.flex_spw_id_array for obj in other]
             )
+            if this.eq_coeffs is not None and all(
+                obj.eq_coeffs is not None for obj in other
+            ):
+                this.eq_coeffs = np.concatenate(
+                    [this.eq_coeffs] + [obj.eq_coeffs for obj in other], axis=1
+                )
+            if this.flex_spw_polarization_array is not None:
+                flexpol_dict = {}
+                for obj in [this] + list(other):
+                    flexpol_dict.update(
+                        zip(obj.spw_array, obj.flex_spw_polarization_array)
+                    )
             this.spw_array = np.concatenate(
                 [this.spw_array] + [obj.spw_array for obj in other]
             )
@@ -6070,6 +6091,11 @@ class UVData(UVBase):
             )
             this.spw_array = this.flex_spw_id_array[unique_index]
 
+            if this.flex_spw_polarization_array is not None:
+                this.flex_spw_polarization_array = np.array(
+                    [flexpol_dict[key] for key in this.spw_array]
+                )
+
             this.Nspws = len(this.spw_array)
 
             spacing_error, chanwidth_error = this._check_freq_spacing(
@@ -6158,9 +6184,14 @@ class UVData(UVBase):
                 + [obj.phase_center_frame_pa for obj in other]
             )
             this.phase_center_id_array = np.concatenate(
-                [this.phase_center_id_array]
-                + [obj.phase_center_id_array for obj in other]
+                [this.phase_center_id_array] + other_pc_ids
             )
+            if this.scan_number_array is not None and all(
+                obj.scan_number_array is not None for obj in other
+            ):
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other]
+                )
             if not self.metadata_only:
                 this.data_array = np.concatenate(
                     [this.data_array] + [obj.data_array for obj in other], axis=0
-- 
2.43.0


From 2c1454363d5ca080df5a28c3452e37621c5508c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:26 +0000
Subject: [PATCH 007/130] fix: conjugate_bls moves flags and nsamples along
 with the conjugated data

---
 src/pyuvdata/uvdata/uvdata.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9c590ff..14fe98a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3685,10 +3685,19 @@ class UVData(UVBase):
 
             if not self.metadata_only:
                 orig_data_array = copy.copy(self.data_array)
+                orig_flag_array = copy.copy(self.flag_array)
+                orig_nsample_array = copy.copy(self.nsample_array)
                 for pol_ind in np.arange(self.Npols):
-                    self.data_array[index_array, :, new_pol_inds[pol_ind]] = np.conj(
+                    new_ind = new_pol_inds[pol_ind]
+                    self.data_array[index_array, :, new_ind] = np.conj(
                         orig_data_array[index_array, :, pol_ind]
                     )
+                    self.flag_array[index_array, :, new_ind] = orig_flag_array[
+                        index_array, :, pol_ind
+                    ]
+                    self.nsample_array[index_array, :, new_ind] = orig_nsample_array[
+                        index_array, :, pol_ind
+                    ]
 
             ant_1_vals = self.ant_1_array[index_array]
             ant_2_vals = self.ant_2_array[index_array]
-- 
2.43.0


From 5e47a96c89d3875b0a6f2c7a1304c894835d0ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:26 +0000
Subject: [PATCH 008/130] fix: conjugate_bls updates the blt order and
 rectangularity

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 14fe98a..0b7dc5d 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3707,6 +3707,9 @@ class UVData(UVBase):
                 self.ant_1_array[index_array], self.ant_2_array[index_array]
             )
             self.Nbls = np.unique(self.baseline_array).size
+            # the old order and rectangularity may not be right for the new baselines
+            self.blt_order = None
+            self.set_rectangularity(force=True)
             self._clear_antpair2ind_cache(self)
 
     def reorder_pols(
-- 
2.43.0


From 4ef8e95851fb7cd3b4da53673706c1993b687973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:27 +0000
Subject: [PATCH 009/130] fix: rectangularity is determined from the data, not
 from blt_order

---
 src/pyuvdata/uvdata/uvdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0b7dc5d..9af8677 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3807,12 +3807,13 @@ class UVData(UVBase):
         if self.blts_are_rectangular is not None and not force:
             return
 
+        # Do not use blt_order as a shortcut here, the data can have that order and not
+        # be rectangular (e.g. if it was reordered with autos_first).
         rect, time = utils.bltaxis.determine_rectangularity(
             time_array=self.time_array,
             baseline_array=self.baseline_array,
             nbls=self.Nbls,
             ntimes=self.Ntimes,
-            blt_order=self.blt_order,
         )
         self.blts_are_rectangular = rect
         self.time_axis_faster_than_bls = time
-- 
2.43.0


From ff8c966c31e075dd17efe0da2324c92cb5283705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:27 +0000
Subject: [PATCH 010/130] fix: reorder_blts reorders scan numbers

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9af8677..dee7fb2 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4052,6 +4052,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[index_array]
         self.phase_center_frame_pa = self.phase_center_frame_pa[index_array]
         self.phase_center_id_array = self.phase_center_id_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
 
         if not self.metadata_only:
             self.data_array = self.data_array[index_array]
-- 
2.43.0


From 7ef55ca299926f6f2665f3522490aa2abd7bb296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 011/130] fix: frame position angle next to the poles

---
 src/pyuvdata/utils/phasing.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 994c165..fad984d 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1660,16 +1660,10 @@ def calc_frame_pos_angle(
     dn_dec = unique_dec - offset_pos
     up_ra = dn_ra = unique_ra
 
-    # Wrap the positions if they happen to go over the poles
-    up_ra[up_dec > (np.pi / 2.0)] = np.mod(
-        up_ra[up_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
-    )
-    up_dec[up_dec > (np.pi / 2.0)] = np.pi - up_dec[up_dec > (np.pi / 2.0)]
-
-    dn_ra[-dn_dec > (np.pi / 2.0)] = np.mod(
-        dn_ra[dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
-    )
-    dn_dec[-dn_dec > (np.pi / 2.0)] = np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
+    # If an offset position would go over a pole, where it is no longer to the
+    # north/south, use the position itself for that end of the arc.
+    up_dec = np.where(up_dec > (np.pi / 2.0), unique_dec, up_dec)
+    dn_dec = np.where(dn_dec < -(np.pi / 2.0), unique_dec, dn_dec)
 
     # Run the set of offset coordinates through the "reverse" transform. The two offset
     # positions are concat'd together to help reduce overheads
-- 
2.43.0


From 1bd044d3696f1dbd1dea3ff000be792fe0b78b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 012/130] fix: driftscan phase centers are on the right side of
 the meridian

RA is LST minus hour angle, the sign was wrong, so the azimuth was mirrored.
---
 src/pyuvdata/utils/phasing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index fad984d..8209e13 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2195,9 +2195,9 @@ def calc_app_coords(
         unique_app_ha, unique_app_dec = erfa.ae2hd(
             lon_coord, lat_coord, site_loc.lat.rad
         )
-        # The above returns HA/Dec, so we just need to rotate by
+        # The above returns HA/Dec, so we just need to subtract it from
         # the LST to get back app RA and Dec
-        unique_app_ra = np.mod(unique_app_ha + unique_lst, 2 * np.pi)
+        unique_app_ra = np.mod(unique_lst - unique_app_ha, 2 * np.pi)
         unique_app_dec = unique_app_dec + np.zeros_like(unique_app_ra)
     elif coord_type == "ephem":
         interp_ra, interp_dec, _, _ = interpolate_ephem(
-- 
2.43.0


From 6dea91994743c4f5e347a4787caf4659ae1187af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 013/130] fix: unproject_phase leaves the uvws of unselected
 baseline-times alone

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index dee7fb2..0480dc0 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4387,7 +4387,7 @@ class UVData(UVBase):
         self._apply_w_proj(
             new_w_vals=0.0, old_w_vals=self.uvw_array[:, 2], select_mask=select_mask_use
         )
-        self.uvw_array = new_uvw
+        self.uvw_array[select_mask_use] = new_uvw[select_mask_use]
 
         # remove/update phase center
         match_id, match_diffs = utils.phase_center_catalog.look_in_catalog(
-- 
2.43.0


From 3fd3932577c2cc5ccd2499c18f00b11174b75e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 014/130] fix: phase with select_mask works with
 use_ant_pos=False

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0480dc0..4164302 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4783,6 +4783,9 @@ class UVData(UVBase):
         uvw_array = uvw_array[select_mask, :]
         ant_1_array = ant_1_array[select_mask]
         ant_2_array = ant_2_array[select_mask]
+        old_app_ra = old_app_ra[select_mask]
+        old_app_dec = old_app_dec[select_mask]
+        old_frame_pa = old_frame_pa[select_mask]
 
         # We got the meta-data, now handle calculating the apparent coordinates.
         # First, check if we need to look up the phase center in question
-- 
2.43.0


From e9ef7adf01d79f8315e12bab92dc549189bb0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 015/130] fix: phasing some baseline-times does not move others
 with the same source name

---
 src/pyuvdata/uvdata/uvdata.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 4164302..9222a3c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4837,6 +4837,21 @@ class UVData(UVBase):
             telescope_lon=self.telescope.location.lon.rad,
         )
 
+        # A different phase center with the same name cannot be overwritten if it is in
+        # use by baseline-times that are not being phased here.
+        if phase_dict["cat_id"] is not None and not lookup_name:
+            other_blts = np.ones(self.Nblts, dtype=bool)
+            other_blts[select_mask] = False
+            _, cat_diffs = utils.phase_center_catalog.look_in_catalog(
+                self.phase_center_catalog,
+                phase_dict=phase_dict,
+                target_cat_id=phase_dict["cat_id"],
+            )
+            if cat_diffs != 0 and np.any(
+                self.phase_center_id_array[other_blts] == phase_dict["cat_id"]
+            ):
+                phase_dict["cat_id"] = None
+
         # With all operations complete, we now start manipulating the UVData object
         cat_id = self._add_phase_center(
             cat_name=phase_dict["cat_name"],
-- 
2.43.0


From e3c868801b6f6df01f4e0c9d152baf7a75b13678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 016/130] fix: set_uvws_from_antenna_positions does not phase
 unprojected data

---
 src/pyuvdata/uvdata/uvdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9222a3c..27eb088 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5003,7 +5003,11 @@ class UVData(UVBase):
                 old_w_vals = self.uvw_array[:, 2].copy()
                 # Treat the unprojected values as having no w-proj previously
                 old_w_vals[unprojected_blts] = 0.0
-                self._apply_w_proj(new_w_vals=new_uvw[:, 2], old_w_vals=old_w_vals)
+                self._apply_w_proj(
+                    new_w_vals=new_uvw[:, 2],
+                    old_w_vals=old_w_vals,
+                    select_mask=~unprojected_blts,
+                )
             else:
                 warnings.warn(
                     "Recalculating uvw_array without adjusting visibility "
-- 
2.43.0


From 68393df751805d123579dabcbe8de6b22bd99466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:04 +0000
Subject: [PATCH 017/130] fix: a refused write_uvh5_part keeps the object's
 data arrays

---
 src/pyuvdata/uvdata/uvh5.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index b6b6008..6ed4b13 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1586,19 +1586,21 @@ class UVH5(UVData):
         uvd_file.filename = self.filename
         uvd_file._filename.form = self._filename.form
 
-        if self != uvd_file:
+        header_matches = self == uvd_file
+
+        # clean up after ourselves, whether or not the metadata match
+        if replace_data:
+            self.data_array = data_array
+        if replace_flags:
+            self.flag_array = flag_array
+        if replace_nsamples:
+            self.nsample_array = nsample_array
+        del uvd_file
+
+        if not header_matches:
             raise AssertionError(
                 "The object metadata in memory and metadata on disk are different"
             )
-        else:
-            # clean up after ourselves
-            if replace_data:
-                self.data_array = data_array
-            if replace_flags:
-                self.flag_array = flag_array
-            if replace_nsamples:
-                self.nsample_array = nsample_array
-            del uvd_file
         return
 
     def write_uvh5_part(
-- 
2.43.0


From ec053de3ef0fa9f30655eb82c2cb860814afc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:56 +0000
Subject: [PATCH 018/130] fix: channel widths read from uvfits are positive for
 descending frequencies

---
 src/pyuvdata/uvdata/uvfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 6a4a483..0c0cb41 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -457,7 +457,8 @@ class UVFITS(UVData):
                 # FQ table, in which case pull the info from the main table
                 self.Nfreqs = vis_hdr.pop("NAXIS4")
                 self.freq_array = fits_utils._gethduaxis(vis_hdu, 4)
-                self.channel_width = np.full(self.Nfreqs, vis_hdr.pop("CDELT4"))
+                # channel widths are positive even if the frequencies are descending
+                self.channel_width = np.full(self.Nfreqs, abs(vis_hdr.pop("CDELT4")))
                 self.flex_spw_id_array = np.zeros(self.Nfreqs, dtype=int)
 
             self.polarization_array = np.int32(fits_utils._gethduaxis(vis_hdu, 3))
-- 
2.43.0


From 3f7bf2e4dcb97ca506a1cc8c8c39f31f6c34b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:56 +0000
Subject: [PATCH 019/130] fix: uvfits windows are written in their order along
 the frequency axis

---
 src/pyuvdata/uvdata/uvfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 0c0cb41..c3dbacf 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -908,7 +908,10 @@ class UVFITS(UVData):
         nchan_list = []
         start_freq_array = []
         delta_freq_array = []
-        for idx in self.spw_array:
+        # the windows have to be in the order they are in along the frequency axis,
+        # which is not necessarily the order of the spw_array
+        _, first_chan = np.unique(self.flex_spw_id_array, return_index=True)
+        for idx in self.flex_spw_id_array[np.sort(first_chan)]:
             chan_mask = self.flex_spw_id_array == idx
             nchan_list += [np.sum(chan_mask)]
             start_freq_array += [self.freq_array[chan_mask][0]]
-- 
2.43.0


From 13302a77c69fa3ebdf35464de9918cfc7f456480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 020/130] fix: time and polarization selections on miriad reads
 apply to every selected baseline and an empty time range does not abort the
 process

---
 src/pyuvdata/uvdata/miriad.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 176051d..57a63e2 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -886,12 +886,23 @@ class Miriad(UVData):
             ).all():
                 raise ValueError(err_msg)
 
+            if time_range[0] > time_range[1]:
+                # the Miriad library aborts the process on an empty range
+                raise ValueError("No data matching this time selection present.")
+
             # UVData.time_array marks center of integration, while Miriad
             # 'time' marks beginning
             # assume time_range refers to the center of the integrations,
             # so subtract 1/2 an integration before using with miriad select
             time_range_use = np.array(time_range) - uv["inttime"] / (24 * 3600.0) / 2
 
+            if time_range_use[0] == time_range_use[1]:
+                # the Miriad library needs an increasing range
+                time_range_use[1] = np.nextafter(time_range_use[1], np.inf)
+
+            # the antenna selections are joined with "or", the time selection applies
+            # to all of them
+            uv.select("and", -1, -1)
             uv.select("time", time_range_use[0], time_range_use[1], include=True)
             if n_selects > 0:
                 history_update_string += ", times"
@@ -921,6 +932,9 @@ class Miriad(UVData):
                 )
                 for p in polarizations
             ]
+            # the antenna selections are joined with "or", the polarization selection
+            # applies to all of them
+            uv.select("and", -1, -1)
             # iterate through all possible pols and reject if not in pols
             pol_list = []
             for p in np.arange(-8, 5):
-- 
2.43.0


From 3cd956cd575cdd5fbe07689ac31e584a765480fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 021/130] fix: lsts, lst_range and catalog_names are not
 ignored on reads of files without their own selection

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 27eb088..8b8badb 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -10961,6 +10961,7 @@ class UVData(UVBase):
                     or polarizations is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     select = True
                     warnings.warn(
@@ -10984,6 +10985,7 @@ class UVData(UVBase):
                     select_polarizations = polarizations
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["uvfits", "uvh5"]:
@@ -10994,8 +10996,11 @@ class UVData(UVBase):
                     or frequencies is not None
                     or freq_chans is not None
                     or times is not None
+                    or lsts is not None
+                    or lst_range is not None
                     or blt_inds is not None
                     or phase_center_ids is not None
+                    or catalog_names is not None
                 ):
                     if blt_inds is not None:
                         if (
@@ -11036,6 +11041,7 @@ class UVData(UVBase):
                     select_lst_range = lst_range
                     select_blt_inds = blt_inds
                     select_phase_center_ids = phase_center_ids
+                    select_catalog_names = catalog_names
                 else:
                     select = False
             elif file_type in ["mir"]:
@@ -11059,6 +11065,7 @@ class UVData(UVBase):
                 select_freq_chans = freq_chans
                 select_blt_inds = blt_inds
                 select_phase_center_ids = phase_center_ids
+                select_catalog_names = None
                 select_times = times
                 select_lsts = lsts
 
@@ -11290,6 +11297,7 @@ class UVData(UVBase):
                     polarizations=select_polarizations,
                     blt_inds=select_blt_inds,
                     phase_center_ids=select_phase_center_ids,
+                    catalog_names=select_catalog_names,
                     keep_all_metadata=keep_all_metadata,
                     run_check=run_check,
                     check_extra=check_extra,
-- 
2.43.0


From cd65a55b2f82196da57aa911c757934a597db4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 022/130] fix: partial reads of uvfits files with several
 spectral windows

---
 src/pyuvdata/uvdata/uvfits.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index c3dbacf..5b1766c 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -197,6 +197,12 @@ class UVFITS(UVData):
         if proc is not None:
             proc.join()
 
+    @staticmethod
+    def _merge_spw_axis(raw_data_array):
+        """Merge the spw axis of the raw data into the frequency axis."""
+        nblts, nspws, nchans, npols, ncomplex = raw_data_array.shape
+        return raw_data_array.reshape(nblts, 1, nspws * nchans, npols, ncomplex)
+
     def _get_data(
         self,
         vis_hdu,
@@ -248,7 +254,7 @@ class UVFITS(UVData):
             blt_frac = 1
 
         if freq_inds is not None:
-            freq_frac = len(freq_inds) * float(self.Nspws) / float(self.Nfreqs)
+            freq_frac = len(freq_inds) / float(self.Nfreqs)
         else:
             freq_frac = 1
 
@@ -282,26 +288,34 @@ class UVFITS(UVData):
             )
 
             # just read in the right portions of the data and flag arrays
+            # freq_inds indexes all the channels of all the spws, so merge the spw and
+            # frequency axes (into a length 1 spw axis and a frequency axis) before
+            # selecting on it.
+            merge_spws = vis_hdu.header["NAXIS"] == 7 and vis_hdu.header["NAXIS5"] > 1
             if blt_frac == min_frac:
                 if vis_hdu.header["NAXIS"] == 7:
                     raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
                     raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :]
                     raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
+                if merge_spws:
+                    raw_data_array = self._merge_spw_axis(raw_data_array)
                 if freq_frac < 1:
                     raw_data_array = raw_data_array[:, :, freq_inds, :, :]
                 if pol_frac < 1:
                     raw_data_array = raw_data_array[:, :, :, pol_inds, :]
             elif freq_frac == min_frac:
-                if vis_hdu.header["NAXIS"] == 7:
+                if merge_spws:
+                    raw_data_array = self._merge_spw_axis(
+                        vis_hdu.data.data[:, 0, 0, :, :, :, :]
+                    )[:, :, freq_inds, :, :]
+                elif vis_hdu.header["NAXIS"] == 7:
                     raw_data_array = vis_hdu.data.data[:, :, :, :, freq_inds, :, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -317,7 +331,6 @@ class UVFITS(UVData):
                 if vis_hdu.header["NAXIS"] == 7:
                     raw_data_array = vis_hdu.data.data[:, :, :, :, :, pol_inds, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -325,6 +338,8 @@ class UVFITS(UVData):
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :]
                     raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
 
+                if merge_spws:
+                    raw_data_array = self._merge_spw_axis(raw_data_array)
                 if blt_frac < 1:
                     raw_data_array = raw_data_array[blt_inds, :, :, :, :]
                 if freq_frac < 1:
-- 
2.43.0


From 447bfe4309d467e0850f7298bb05dc53d1b564d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 023/130] fix: partial uvh5 reads determine the rectangularity
 of the selected baseline-times

---
 src/pyuvdata/uvdata/uvh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 6ed4b13..5816602 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -817,6 +817,9 @@ class UVH5(UVData):
                 history_update_string=history_update_string,
                 keep_all_metadata=keep_all_metadata,
             )
+            if blt_inds is not None and self.blts_are_rectangular is not None:
+                # the selected blts may not be shaped like the ones in the file
+                self.set_rectangularity(force=True)
 
             # determine which axes can be sliced, rather than fancy indexed
             # max_nslice_frac of 0.1 yields slice speedup over fancy index for HERA data
-- 
2.43.0


From f111a15e42fa84a4aa79a8f01e7e9497672b4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:13 +0000
Subject: [PATCH 024/130] fix: the type of a moving source read from a
 measurement set is a string

---
 src/pyuvdata/utils/io/ms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index c065c59..56a852b 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -1533,7 +1533,6 @@ def read_ms_source(filepath):
             cat_dict["cat_times"] = Time(
                 np.array(cat_dict["cat_times"]) / 86400.0, format="mjd", scale="utc"
             ).jd
-            cat_dict["cat_type"] = "ephem"
         else:
             del cat_dict["cat_times"]
 
@@ -1542,6 +1541,8 @@ def read_ms_source(filepath):
                 cat_dict[key] = np.array(cat_dict[key])
             else:
                 cat_dict[key] = cat_dict[key][0]
+        if make_arr:
+            cat_dict["cat_type"] = "ephem"
         if np.allclose(cat_dict["cat_pm_ra"], 0):
             if np.allclose(cat_dict["cat_pm_dec"], 0):
                 cat_dict["cat_pm_ra"] = cat_dict["cat_pm_dec"] = None
-- 
2.43.0


From 41075dd51be966b3d52ad01ee806764ecb26faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:13 +0000
Subject: [PATCH 025/130] fix: the declination proper motion is written to
 measurement sets

---
 src/pyuvdata/utils/io/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index 56a852b..81a7aee 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -1603,7 +1603,7 @@ def write_ms_source(filepath, uvobj=None, time_default=None, phase_center_catalo
             int_val = int_default
             sou_name = pc_dict["cat_name"]
             pm_dir = np.array(
-                [pc_dict.get("cat_pm_ra"), pc_dict.get("cat_pm_ra")], dtype=np.double
+                [pc_dict.get("cat_pm_ra"), pc_dict.get("cat_pm_dec")], dtype=np.double
             )
             if not np.all(np.isfinite(pm_dir)):
                 pm_dir[:] = 0.0
-- 
2.43.0


From df369b21506d5b06f69186e7b7030c6d53534490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:13 +0000
Subject: [PATCH 026/130] fix: descending indices can be converted to slices

---
 src/pyuvdata/utils/tools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index b45b67d..7199681 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -111,14 +111,17 @@ def _convert_to_slices(
     if len(eval_ind) == 0:
         return [slice(0, 0, 0)], False
     if len(eval_ind) <= 2:
-        return [
-            slice(eval_ind[0], eval_ind[-1] + 1, max(eval_ind[-1] - eval_ind[0], 1))
-        ], True
+        step = eval_ind[-1] - eval_ind[0]
+        if step < 0:
+            # descending indices, the stop has to be None to include the zeroth
+            stop = eval_ind[-1] - 1 if eval_ind[-1] > 0 else None
+            return [slice(eval_ind[0], stop, step)], True
+        return [slice(eval_ind[0], eval_ind[-1] + 1, max(step, 1))], True
 
     # Catch the simplest case of "give me a single slice or exit"
     if (max_nslice == 1) and return_index_on_fail:
         step = eval_ind[1] - eval_ind[0]
-        if all(np.diff(eval_ind) == step):
+        if step > 0 and all(np.diff(eval_ind) == step):
             return [slice(eval_ind[0], eval_ind[-1] + 1, step)], True
         return [indices], False
 
-- 
2.43.0


From 9b53e20c17b7d108422217e759d4a284cd0b4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:13 +0000
Subject: [PATCH 027/130] fix: write_ms with flip_conj leaves the data of the
 object alone

---
 src/pyuvdata/uvdata/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 73fd904..64bc3d4 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -203,7 +203,7 @@ class MS(UVData):
                 temp_vals = arr[:, :, pol_order]
 
                 if flip_conj and ("DATA" in col):
-                    temp_vals = np.conj(temp_vals, out=temp_vals)
+                    temp_vals = np.conj(temp_vals)
 
                 ms.putcol(col, temp_vals)
 
-- 
2.43.0


From 06ea814a58ce6fda9821c749851ccfbf5d2d27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:13 +0000
Subject: [PATCH 028/130] fix: measurement set weights follow the polarization
 order of the data

---
 src/pyuvdata/uvdata/ms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/ms.py b/src/pyuvdata/uvdata/ms.py
index 64bc3d4..c13ef6e 100644
--- a/src/pyuvdata/uvdata/ms.py
+++ b/src/pyuvdata/uvdata/ms.py
@@ -209,7 +209,7 @@ class MS(UVData):
 
             # Band-averaged weights are used for some things in CASA - calculate them
             # here using median nsamples.
-            temp_weights = np.median(self.nsample_array, axis=1)
+            temp_weights = np.median(self.nsample_array, axis=1)[:, pol_order]
 
             # Grab pointers for the per-blt record arrays
             ant_1_array = self.ant_1_array
-- 
2.43.0


From 38cf7f9870caa5546d7cc73df0e2a3fc2ca6e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 029/130] fix: UVData.new makes polarization_array an array
 when polarizations are strings

---
 src/pyuvdata/uvdata/initializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index dcc4ec9..d23d81a 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -574,8 +574,8 @@ def new_uvdata(
 
     polarization_array = np.array(polarization_array)
     if polarization_array.dtype.kind != "i":
-        polarization_array = utils.polstr2num(
-            polarization_array, x_orientation=x_orientation
+        polarization_array = np.array(
+            utils.polstr2num(polarization_array, x_orientation=x_orientation)
         )
 
     if vis_units not in ["Jy", "K str", "uncalib"]:
-- 
2.43.0


From 0391d452280da78b155682d534300c84ce0d07d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:42 +0000
Subject: [PATCH 030/130] fix: LST selections on ranges that wrap around zero
 match the times they overlap

---
 src/pyuvdata/utils/times.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index b5d6d39..42aa0d1 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -461,12 +461,11 @@ def _select_times_helper(
                         (obj_lst_range[:, 0] <= lst), (obj_lst_range[:, 1] >= lst)
                     )
                 )[0]
-                if lst_ind.size == 0 and np.any(lst_range_wrap):
-                    for lr_ind in np.nonzero(lst_range_wrap)[0]:
-                        if (obj_lst_range[lr_ind, 0] <= lst and lst <= 2 * np.pi) or (
-                            lst >= 0 and lst <= obj_lst_range[lr_ind, 1]
-                        ):
-                            lst_ind = np.array([lr_ind])
+                for lr_ind in np.nonzero(lst_range_wrap)[0]:
+                    if (obj_lst_range[lr_ind, 0] <= lst and lst <= 2 * np.pi) or (
+                        lst >= 0 and lst <= obj_lst_range[lr_ind, 1]
+                    ):
+                        lst_ind = np.append(lst_ind, lr_ind)
                 if lst_ind.size > 0:
                     time_inds = np.append(time_inds, lst_ind)
                 else:
@@ -496,15 +495,22 @@ def _select_times_helper(
                 "LST values are assumed to be in radians, not hours."
             )
         if obj_lst_range is not None:
+            # split the ranges that wrap around zero
+            if lst_range[1] < lst_range[0]:
+                lst_pieces = [(lst_range[0], 2 * np.pi), (0, lst_range[1])]
+            else:
+                lst_pieces = [tuple(lst_range)]
             for lind, lrange in enumerate(obj_lst_range):
-                if not lst_range_wrap[lind] and lst_range[0] < lst_range[1]:
-                    if _check_range_overlap(np.stack((lrange, lst_range), axis=0)):
-                        time_inds = np.append(time_inds, lind)
+                if lst_range_wrap[lind]:
+                    obj_pieces = [(lrange[0], 2 * np.pi), (0, lrange[1])]
                 else:
-                    if (lst_range[0] >= lrange[0] and lst_range[0] <= 2 * np.pi) or (
-                        lst_range[1] <= lrange[1] and lst_range[1] >= 0
-                    ):
-                        time_inds = np.append(time_inds, lind)
+                    obj_pieces = [tuple(lrange)]
+                if any(
+                    _check_range_overlap(np.array([obj_piece, lst_piece]))
+                    for obj_piece in obj_pieces
+                    for lst_piece in lst_pieces
+                ):
+                    time_inds = np.append(time_inds, lind)
             attr_str = "lst_range"
         else:
             if lst_range[1] < lst_range[0]:
-- 
2.43.0


From 9f985dd5a22c49cdd94bcc83933ad0ec85044f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:42 +0000
Subject: [PATCH 031/130] fix: UVCal.reorder_times reorders scan_number_array

---
 src/pyuvdata/uvcal/uvcal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 18cec26..92ed424 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2368,6 +2368,8 @@ class UVCal(UVBase):
             self.phase_center_id_array = self.phase_center_id_array[index_array]
         if self.ref_antenna_array is not None:
             self.ref_antenna_array = self.ref_antenna_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
         self.integration_time = self.integration_time[index_array]
         for param_name in self._data_params:
             param = getattr(self, param_name)
-- 
2.43.0


From c76321212bf5264cfed6b03b95310f5a7b580168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:42 +0000
Subject: [PATCH 032/130] fix: UVCal.select accepts one channel per window

---
 src/pyuvdata/uvcal/uvcal.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 92ed424..7d7dfa4 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4261,6 +4261,19 @@ class UVCal(UVBase):
         else:
             jones_inds = None
 
+        # make sure there is something to keep before changing anything
+        for axis_name, inds in [
+            ("antennas", ant_inds),
+            ("times", time_inds),
+            ("spectral windows", spw_inds),
+            ("frequencies", freq_inds),
+            ("jones polarization terms", jones_inds),
+        ]:
+            if inds is not None and len(inds) == 0:
+                raise ValueError(f"No {axis_name} match this selection.")
+        if freq_inds is not None and np.max(freq_inds) >= self.Nfreqs:
+            raise ValueError("freq_chans contains a channel that is not present.")
+
         history_update_string += " using pyuvdata."
 
         if n_selects == 0:
-- 
2.43.0


From f0e8c00470c622fea0e9c67e6bc904d8c17f06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:42 +0000
Subject: [PATCH 033/130] fix: UVCal.select refuses absent windows and channels
 and empty results before changing anything

---
 src/pyuvdata/uvcal/uvcal.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 7d7dfa4..aa8f667 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4100,6 +4100,9 @@ class UVCal(UVBase):
                         "is not supported by the calfits format."
                     )
 
+        if freq_chans is not None:
+            freq_chans = utils.tools._get_iterable(freq_chans)
+
         if spws is not None:
             if self.Nspws == 1:
                 warnings.warn(
@@ -4107,6 +4110,14 @@ class UVCal(UVBase):
                 )
                 spw_inds = None
             else:
+                # Check and see that all requested spws are available
+                spw_check = np.isin(spws, self.spw_array)
+                if not np.all(spw_check):
+                    raise ValueError(
+                        f"SPW number {spws[np.where(~spw_check)[0][0]]} is not "
+                        "present in the spw_array"
+                    )
+
                 if not self.wide_band:
                     # Translate the spws into frequencies
                     freq_chans = utils.tools._sorted_unique_union(
@@ -4120,14 +4131,6 @@ class UVCal(UVBase):
                         history_update_string += "spectral windows"
                     n_selects += 1
 
-                    # Check and see that all requested spws are available
-                    spw_check = np.isin(spws, self.spw_array)
-                    if not np.all(spw_check):
-                        raise ValueError(
-                            f"SPW number {spws[np.where(~spw_check)[0][0]]} is not "
-                            "present in the spw_array"
-                        )
-
                     spw_inds = np.where(np.isin(self.spw_array, spws))[0]
         else:
             spw_inds = None
@@ -4174,7 +4177,10 @@ class UVCal(UVBase):
                     freq_ind_separation = freq_ind_separation[
                         np.diff(self.flex_spw_id_array[freq_inds]) == 0
                     ]
-                if not utils.tools._test_array_constant(freq_ind_separation):
+                if freq_ind_separation.size == 0:
+                    # one channel per spectral window
+                    pass
+                elif not utils.tools._test_array_constant(freq_ind_separation):
                     warnings.warn(
                         "Selected frequencies are not evenly spaced. This "
                         "will make it impossible to write this data out to "
-- 
2.43.0


From c4fa4fbd5c41639dcce23e9762d03af6d2bc1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 034/130] fix: phase center catalogs whose entries lack
 optional keys can be compared

---
 src/pyuvdata/utils/phase_center_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/phase_center_catalog.py b/src/pyuvdata/utils/phase_center_catalog.py
index 0759451..7c4ac18 100644
--- a/src/pyuvdata/utils/phase_center_catalog.py
+++ b/src/pyuvdata/utils/phase_center_catalog.py
@@ -197,7 +197,7 @@ def look_in_catalog(
                             tol_dict[key][1],
                         )
             else:
-                cat_diffs += check_dict[key] is not None
+                cat_diffs += check_dict.get(key) is not None
         if (cat_diffs == 0) or (cat_name == name):
             if cat_diffs < match_diffs:
                 # If our current match is an improvement on any previous matches,
-- 
2.43.0


From d4735b9b991a3850419491e0ebaafa3e05c3de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 035/130] fix: UVCal.fast_concat keeps scan numbers, phase
 centers and flex-Jones labels and refuses before changing anything

---
 src/pyuvdata/uvcal/uvcal.py | 118 ++++++++++++++++++++++++------------
 1 file changed, 78 insertions(+), 40 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index aa8f667..c4f18e7 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3583,8 +3583,23 @@ class UVCal(UVBase):
         history_update_string = " Combined data along "
 
         # Check separately for phase_center_id_array, since it's optional
-        if axis != "time" and this.phase_center_id_array is not None:
-            compatibility_params += ["_phase_center_id_array"]
+        if axis != "time":
+            compatibility_params += ["_ref_antenna_array", "_scan_number_array"]
+        else:
+            for obj in other:
+                for param in ["ref_antenna_array", "scan_number_array"]:
+                    if (getattr(this, param) is None) != (getattr(obj, param) is None):
+                        raise ValueError(
+                            "To combine these data, all or none of the objects must "
+                            f"have the {param} parameter set."
+                        )
+        if axis not in ["freq", "spw"]:
+            compatibility_params += [
+                "_spw_array",
+                "_flex_spw_id_array",
+                "_flex_jones_array",
+                "_freq_range",
+            ]
 
         if axis == "freq" or axis == "spw":
             if axis == "freq":
@@ -3634,27 +3649,6 @@ class UVCal(UVBase):
             ]
             _time_param_check(this, other)
 
-        history_update_string += " axis using pyuvdata."
-        histories_match = []
-        for obj in other:
-            histories_match.append(
-                utils.history._check_histories(this.history, obj.history)
-            )
-
-        this.history += history_update_string
-        for obj_num, obj in enumerate(other):
-            if not histories_match[obj_num]:
-                if verbose_history:
-                    this.history += " Next object history follows. " + obj.history
-                else:
-                    extra_history = utils.history._combine_history_addition(
-                        this.history, obj.history
-                    )
-                    if extra_history is not None:
-                        this.history += (
-                            " Unique part of next object history follows. "
-                            + extra_history
-                        )
         # Actually check compatibility parameters
         for obj in other:
             for a in compatibility_params:
@@ -3673,18 +3667,61 @@ class UVCal(UVBase):
                     msg = "UVParameter " + a[1:] + " does not match. Combining anyway."
                     warnings.warn(msg)
 
-        # update the phase_center_catalog to make them consistent across objects
-        # Doing this as a binary tree merge
-        # The left object in each loop will have its phase center IDs updated.
+        # update the phase_center_catalog to make it consistent across objects. The
+        # IDs can change each time another catalog is merged in, so only work out the
+        # IDs to use for the other objects once all of them are merged. Work on a copy
+        # so that nothing is changed if the objects do not match.
         if this.phase_center_catalog is not None:
-            uv_list = [this] + other
-            while len(uv_list) > 1:
-                for uv1, uv2 in zip(uv_list[0::2], uv_list[1::2]):
-                    uv1._consolidate_phase_center_catalogs(
-                        other=uv2, ignore_name=ignore_name
+            cat_obj = this.copy(metadata_only=True)
+            for obj in other:
+                cat_obj._consolidate_phase_center_catalogs(
+                    other=obj, ignore_name=ignore_name
+                )
+            other_pc_ids = []
+            for obj in other:
+                if obj.phase_center_id_array is None:
+                    continue
+                obj_ids = np.zeros_like(obj.phase_center_id_array)
+                for cat_id, cat_entry in obj.phase_center_catalog.items():
+                    new_id, _ = utils.phase_center_catalog.look_in_catalog(
+                        cat_obj.phase_center_catalog,
+                        phase_dict=cat_entry,
+                        ignore_name=ignore_name,
                     )
-                uv_list = uv_list[0::2]
+                    obj_ids[obj.phase_center_id_array == cat_id] = new_id
+                other_pc_ids.append(obj_ids)
+                if axis != "time" and not np.array_equal(
+                    cat_obj.phase_center_id_array, obj_ids
+                ):
+                    raise ValueError(
+                        "UVParameter phase_center_id_array does not match. Cannot "
+                        "combine objects."
+                    )
+            this.phase_center_catalog = cat_obj.phase_center_catalog
+            this.phase_center_id_array = cat_obj.phase_center_id_array
+            this.Nphase = cat_obj.Nphase
+
+        history_update_string += " axis using pyuvdata."
+        histories_match = []
+        for obj in other:
+            histories_match.append(
+                utils.history._check_histories(this.history, obj.history)
+            )
 
+        this.history += history_update_string
+        for obj_num, obj in enumerate(other):
+            if not histories_match[obj_num]:
+                if verbose_history:
+                    this.history += " Next object history follows. " + obj.history
+                else:
+                    extra_history = utils.history._combine_history_addition(
+                        this.history, obj.history
+                    )
+                    if extra_history is not None:
+                        this.history += (
+                            " Unique part of next object history follows. "
+                            + extra_history
+                        )
         total_quality_exists = [this.total_quality_array is not None] + [
             obj.total_quality_array is not None for obj in other
         ]
@@ -3714,15 +3751,15 @@ class UVCal(UVBase):
             )
             # We want to preserve per-spw information based on first appearance
             # in the concatenated array.
+            concat_spw_array = np.concatenate(
+                [this.spw_array] + [obj.spw_array for obj in other]
+            )
             unique_index = np.sort(
                 np.unique(this.flex_spw_id_array, return_index=True)[1]
             )
             this.spw_array = this.flex_spw_id_array[unique_index]
             this.Nspws = this.spw_array.size
             if this.flex_jones_array is not None:
-                concat_spw_array = np.concatenate(
-                    [this.spw_array] + [obj.spw_array for obj in other]
-                )
                 spw_index = np.asarray(
                     [
                         np.nonzero(concat_spw_array == spw)[0][0]
@@ -3789,17 +3826,18 @@ class UVCal(UVBase):
                 )
             if this.phase_center_id_array is not None:
                 this.phase_center_id_array = np.concatenate(
-                    (
-                        [this.phase_center_id_array]
-                        + [obj.phase_center_id_array for obj in other]
-                    ),
-                    axis=0,
+                    [this.phase_center_id_array] + other_pc_ids, axis=0
                 )
             if this.ref_antenna_array is not None:
                 this.ref_antenna_array = np.concatenate(
                     [this.ref_antenna_array] + [obj.ref_antenna_array for obj in other],
                     axis=0,
                 )
+            if this.scan_number_array is not None:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array] + [obj.scan_number_array for obj in other],
+                    axis=0,
+                )
             axis_num = 2
         elif axis == "jones":
             this.Njones = sum([this.Njones] + [obj.Njones for obj in other])
-- 
2.43.0


From 8ad30c72d875920257fb46fdbdd763a30a93bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 036/130] fix: adding UVCal objects puts each solution of the
 second object on its own labels

Axes in different orders, scan numbers, flex-Jones labels and quality arrays that only one object has were mishandled.
---
 src/pyuvdata/uvcal/uvcal.py | 206 +++++++++++++-----------------------
 1 file changed, 71 insertions(+), 135 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index c4f18e7..5b58561 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2658,6 +2658,12 @@ class UVCal(UVBase):
                 "ref_antenna_array parameter set."
             )
 
+        if (this.scan_number_array is None) != (other.scan_number_array is None):
+            raise ValueError(
+                "To combine these data, both or neither object must have the "
+                "scan_number_array parameter set."
+            )
+
         # Check that the objects both (or neither) have catalogs and phase ID arrays
         this_pc_cat = this.phase_center_catalog is None
         other_pc_cat = other.phase_center_catalog is None
@@ -2770,15 +2776,31 @@ class UVCal(UVBase):
                             " cannot be combined."
                         )
 
-        # First, handle the internal source catalogs, since merging them is kind of a
+        if len(both_times) > 0:
+            for param, name in [
+                ("ref_antenna_array", "reference antennas"),
+                ("scan_number_array", "scan numbers"),
+            ]:
+                if getattr(this, param) is not None and not np.array_equal(
+                    getattr(this, param)[this_times_ind],
+                    getattr(other, param)[other_times_ind],
+                ):
+                    raise ValueError(
+                        "Cannot combine objects due to overlapping times with "
+                        f"different {name}."
+                    )
+
+        # Next, handle the internal source catalogs, since merging them is kind of a
         # weird, one-off process (i.e., nothing is cat'd across a particular axis)
         if this.phase_center_catalog is not None:
-            this._consolidate_phase_center_catalogs(
+            # work on a copy so that nothing is changed if the objects do not match
+            cat_obj = this.copy(metadata_only=True)
+            cat_obj._consolidate_phase_center_catalogs(
                 other=other, ignore_name=ignore_name
             )
             if (len(both_times) > 0) and (this.phase_center_id_array is not None):
                 if not np.array_equal(
-                    this.phase_center_id_array[this_times_ind],
+                    cat_obj.phase_center_id_array[this_times_ind],
                     other.phase_center_id_array[other_times_ind],
                 ):
                     # TODO: I think this check actually needs to be expanded to other
@@ -2787,72 +2809,9 @@ class UVCal(UVBase):
                         "Cannot combine objects due to overlapping times with "
                         "different phase centers."
                     )
-
-        if (len(both_times) > 0) and (this.ref_antenna_array is not None):
-            if not np.array_equal(
-                this.ref_antenna_array[this_times_ind],
-                other.ref_antenna_array[other_times_ind],
-            ):
-                raise ValueError(
-                    "Cannot combine objects due to overlapping times with "
-                    "different reference antennas."
-                )
-
-        # Next, we want to make sure that the ordering of the _overlapping_ data is
-        # the same, so that things can get plugged together in a sensible way.
-        if len(this_ants_ind) != 0:
-            this_argsort = np.argsort(this_ants_ind)
-            other_argsort = np.argsort(other_ants_ind)
-
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nants_data)
-                temp_ind[this_ants_ind[this_argsort]] = temp_ind[
-                    this_ants_ind[other_argsort]
-                ]
-
-                this.reorder_antennas(temp_ind)
-
-        if len(this_times_ind) != 0:
-            this_argsort = np.argsort(this_times_ind)
-            other_argsort = np.argsort(other_times_ind)
-
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Ntimes)
-                temp_ind[this_times_ind[this_argsort]] = temp_ind[
-                    this_times_ind[other_argsort]
-                ]
-
-                this.reorder_times(temp_ind)
-
-        if len(this_freq_ind) != 0:
-            this_argsort = np.argsort(this_freq_ind)
-            other_argsort = np.argsort(other_freq_ind)
-            if np.any(this_argsort != other_argsort):
-                if this.wide_band:
-                    temp_ind = np.arange(this.Nspws)
-                    temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                        this_freq_ind[other_argsort]
-                    ]
-
-                    this.reorder_freqs(spw_order=temp_ind)
-                else:
-                    temp_ind = np.arange(this.Nfreqs)
-                    temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                        this_freq_ind[other_argsort]
-                    ]
-
-                    this.reorder_freqs(channel_order=temp_ind)
-
-        if len(this_jones_ind) != 0:
-            this_argsort = np.argsort(this_jones_ind)
-            other_argsort = np.argsort(other_jones_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Njones)
-                temp_ind[this_jones_ind[this_argsort]] = temp_ind[
-                    this_jones_ind[other_argsort]
-                ]
-
-                this.reorder_jones(temp_ind)
+            this.phase_center_catalog = cat_obj.phase_center_catalog
+            this.phase_center_id_array = cat_obj.phase_center_id_array
+            this.Nphase = cat_obj.Nphase
 
         # Update filename parameter
         this.filename = utils.tools._combine_filenames(this.filename, other.filename)
@@ -2926,21 +2885,39 @@ class UVCal(UVBase):
         else:
             jnew_inds = []
 
-        # Initialize tqa variables
+        # Work out where each element of the axes of other goes on the axes of this:
+        # overlapping elements go where the matching element of this is, new elements
+        # are added to the end (in the order they have on other).
+        ants_t2o = np.zeros(other.Nants_data, dtype=int)
+        ants_t2o[other_ants_ind] = this_ants_ind
+        ants_t2o[anew_inds] = this.Nants_data + np.arange(len(anew_inds))
+
+        n_this_freqs = this.Nspws if this.wide_band else this.Nfreqs
+        freqs_t2o = np.zeros(
+            other.Nspws if this.wide_band else other.Nfreqs, dtype=int
+        )
+        freqs_t2o[other_freq_ind] = this_freq_ind
+        freqs_t2o[fnew_inds] = n_this_freqs + np.arange(len(fnew_inds))
+
+        times_t2o = np.zeros(other.Ntimes, dtype=int)
+        times_t2o[other_times_ind] = this_times_ind
+        times_t2o[tnew_inds] = this.Ntimes + np.arange(len(tnew_inds))
+
+        jones_t2o = np.zeros(other.Njones, dtype=int)
+        jones_t2o[other_jones_ind] = this_jones_ind
+        jones_t2o[jnew_inds] = this.Njones + np.arange(len(jnew_inds))
+
         can_combine_tqa = True
-        if this.cal_type == "delay":
-            Nf_tqa = 1
-        else:
-            Nf_tqa = this.Nfreqs
 
-        if (
-            not self.metadata_only
-            and this.quality_array is None
-            and other.quality_array is not None
-        ):
-            this.quality_array = np.zeros(
-                this._quality_array.expected_shape(this), dtype=float
-            )
+        if not self.metadata_only:
+            if this.quality_array is None and other.quality_array is not None:
+                this.quality_array = np.zeros(
+                    this._quality_array.expected_shape(this), dtype=float
+                )
+            if this.total_quality_array is None and other.total_quality_array is not None:
+                this.total_quality_array = np.zeros(
+                    this._total_quality_array.expected_shape(this), dtype=float
+                )
 
         # Pad out self to accommodate new data
         ant_order = None
@@ -3014,12 +2991,12 @@ class UVCal(UVBase):
 
                 # We want to preserve per-spw information based on first appearance
                 # in the concatenated array.
+                concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                 unique_index = np.sort(
                     np.unique(this.flex_spw_id_array, return_index=True)[1]
                 )
                 this.spw_array = np.sort(this.flex_spw_id_array[unique_index])
                 if this.flex_jones_array is not None:
-                    concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                     spw_index = np.asarray(
                         [
                             np.nonzero(concat_spw_array == spw)[0][0]
@@ -3078,14 +3055,6 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=0
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros((len(fnew_inds), this.Ntimes, this.Njones))
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=0
-                    )
 
         t_order = None
         if len(tnew_inds) > 0:
@@ -3113,6 +3082,10 @@ class UVCal(UVBase):
                 this.ref_antenna_array = np.concatenate(
                     [this.ref_antenna_array, other.ref_antenna_array[tnew_inds]]
                 )
+            if this.scan_number_array is not None:
+                this.scan_number_array = np.concatenate(
+                    [this.scan_number_array, other.scan_number_array[tnew_inds]]
+                )
             if this.time_range is not None:
                 t_order = np.argsort(this.time_range[:, 0])
             else:
@@ -3157,17 +3130,7 @@ class UVCal(UVBase):
 
                 if this.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=1
-                    )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=1
@@ -3220,40 +3183,9 @@ class UVCal(UVBase):
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=2
                     )
-                elif other.total_quality_array is not None and can_combine_tqa:
-                    zero_pad = np.zeros(
-                        (data_array_shape[1], data_array_shape[2], len(jnew_inds))
-                    )
-                    this.total_quality_array = np.zeros(
-                        (Nf_tqa, this.Ntimes, this.Njones)
-                    )
-                    this.total_quality_array = np.concatenate(
-                        [this.total_quality_array, zero_pad], axis=2
-                    )
 
         # Now populate the data
         if not self.metadata_only:
-            jones_t2o = np.nonzero(np.isin(this.jones_array, other.jones_array))[0]
-            if this.time_range is not None:
-                times_t2o = np.nonzero(
-                    (np.isin(this.time_range[:, 0], other.time_range[:, 0]))
-                    & (np.isin(this.time_range[:, 1], other.time_range[:, 1]))
-                )[0]
-            else:
-                times_t2o = np.nonzero(np.isin(this.time_array, other.time_array))[0]
-
-            if self.wide_band:
-                freqs_t2o = np.nonzero(np.isin(this.spw_array, other.spw_array))[0]
-            else:
-                freqs_t2o = np.zeros(this.freq_array.shape, dtype=bool)
-                for spw_id in set(this.spw_array).intersection(other.spw_array):
-                    mask = this.flex_spw_id_array == spw_id
-                    freqs_t2o[mask] |= np.isin(
-                        this.freq_array[mask],
-                        other.freq_array[other.flex_spw_id_array == spw_id],
-                    )
-                freqs_t2o = np.nonzero(freqs_t2o)[0]
-            ants_t2o = np.nonzero(np.isin(this.ant_array, other.ant_array))[0]
             if this.cal_type == "delay":
                 this.delay_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
                     other.delay_array
@@ -3312,6 +3244,8 @@ class UVCal(UVBase):
             if this.wide_band:
                 this.spw_array = this.spw_array[f_order]
                 this.freq_range = this.freq_range[f_order]
+                if this.flex_jones_array is not None:
+                    this.flex_jones_array = this.flex_jones_array[f_order]
             else:
                 this.freq_array = this.freq_array[f_order]
                 this.channel_width = this.channel_width[f_order]
@@ -3326,10 +3260,12 @@ class UVCal(UVBase):
             if this.lst_range is not None:
                 this.lst_range = this.lst_range[t_order]
             this.integration_time = this.integration_time[t_order]
-            if self.phase_center_id_array is not None:
+            if this.phase_center_id_array is not None:
                 this.phase_center_id_array = this.phase_center_id_array[t_order]
-            if self.ref_antenna_array is not None:
+            if this.ref_antenna_array is not None:
                 this.ref_antenna_array = this.ref_antenna_array[t_order]
+            if this.scan_number_array is not None:
+                this.scan_number_array = this.scan_number_array[t_order]
         if len(jnew_inds) > 0:
             this.jones_array = this.jones_array[j_order]
 
-- 
2.43.0


From b98d6fde81497b5236d117d61902e5951fca1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 037/130] fix: apply_uvflag matches polarizations, times and
 frequencies before it changes any flag

---
 src/pyuvdata/utils/apply_uvflag.py | 44 +++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index a43f92b..400cc02 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -71,9 +71,10 @@ def apply_uvflag(
                 raise ValueError("Input uvf and uvd polarizations do not match")
 
         # make sure polarization ordering is correct: also edits inplace
-        uvf.polarization_array = uvf.polarization_array[
-            [uvd_pols.index(pol) for pol in uvf_pols]
-        ]
+        if uvf.flag_array.shape[-1] > 1:
+            pol_inds = [uvf_pols.index(pol) for pol in uvd_pols]
+            uvf.polarization_array = uvf.polarization_array[pol_inds]
+            uvf.flag_array = uvf.flag_array[..., pol_inds]
 
     # check time and freq shapes match: if Ntimes or Nfreqs is 1, allow
     # implicit broadcasting
@@ -81,7 +82,7 @@ def apply_uvflag(
         mismatch_times = False
     elif uvf.Ntimes == uvd.Ntimes:
         tdiff = np.unique(uvf.time_array) - np.unique(uvd.time_array)
-        mismatch_times = np.any(tdiff > np.max(np.abs(uvf._time_array.tols)))
+        mismatch_times = np.any(np.abs(tdiff) > np.max(np.abs(uvf._time_array.tols)))
     else:
         mismatch_times = True
     if mismatch_times:
@@ -90,27 +91,44 @@ def apply_uvflag(
     if uvf.Nfreqs == 1:
         mismatch_freqs = False
     elif uvf.Nfreqs == uvd.Nfreqs:
-        fdiff = np.unique(uvf.freq_array) - np.unique(uvd.freq_array)
-        mismatch_freqs = np.any(fdiff > np.max(np.abs(uvf._freq_array.tols)))
+        fdiff = uvf.freq_array - uvd.freq_array
+        mismatch_freqs = np.any(np.abs(fdiff) > np.max(np.abs(uvf._freq_array.tols)))
     else:
         mismatch_freqs = True
     if mismatch_freqs:
         raise ValueError("UVFlag and UVData have mismatched frequency arrays.")
 
-    # unflag if desired
-    if unflag_first:
-        uvd.flag_array[:] = False
-
-    # iterate over antpairs and apply flags: TODO need to be able to handle
+    # match up the rows of each antpair: TODO need to be able to handle
     # conjugated antpairs
     uvf_antpairs = uvf.get_antpairs()
+    matched_inds = []
     for ap in uvd.get_antpairs():
-        uvd_ap_inds = uvd.antpair2ind(ap)
+        uvd_ap_inds = np.arange(uvd.Nblts)[uvd.antpair2ind(ap)]
         if ap not in uvf_antpairs:
+            matched_inds.append((uvd_ap_inds, None))
+            continue
+        uvf_ap_inds = np.arange(uvf.Nblts)[uvf.antpair2ind(*ap)]
+        if uvf.Ntimes > 1:
+            # the rows of this antpair can be in a different time order
+            uvd_ap_inds = uvd_ap_inds[np.argsort(uvd.time_array[uvd_ap_inds])]
+            uvf_ap_inds = uvf_ap_inds[np.argsort(uvf.time_array[uvf_ap_inds])]
+            if uvd_ap_inds.size != uvf_ap_inds.size or np.any(
+                np.abs(uvf.time_array[uvf_ap_inds] - uvd.time_array[uvd_ap_inds])
+                > np.max(np.abs(uvf._time_array.tols))
+            ):
+                raise ValueError("UVFlag and UVData have mismatched time arrays.")
+        matched_inds.append((uvd_ap_inds, uvf_ap_inds))
+
+    # unflag if desired
+    if unflag_first:
+        uvd.flag_array[:] = False
+
+    # iterate over antpairs and apply flags
+    for uvd_ap_inds, uvf_ap_inds in matched_inds:
+        if uvf_ap_inds is None:
             if flag_missing:
                 uvd.flag_array[uvd_ap_inds] = True
             continue
-        uvf_ap_inds = uvf.antpair2ind(*ap)
         # addition of boolean is OR
         uvd.flag_array[uvd_ap_inds] += uvf.flag_array[uvf_ap_inds]
 
-- 
2.43.0


From bb5b65f5297417973fbbea8d38b9cc1bd78d23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 038/130] fix: UVFlag conversions drop squared weights of the
 shape they had before

---
 src/pyuvdata/uvflag/uvflag.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index a111c23..cbb7fef 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1197,6 +1197,8 @@ class UVFlag(UVBase):
         else:
             self.metric_array = darr
             self._set_mode_metric()
+        # these describe the weights before the collapse
+        self.weights_square_array = None
         self.clear_unused_attributes()
         self.history += "Pol axis collapse. "
 
@@ -1595,6 +1597,9 @@ class UVFlag(UVBase):
             if this_param.value is None and uvd_param.value is not None:
                 setattr(self.telescope, param_name, uvd_param.value)
 
+        # these describe the weights of the waterfall
+        self.weights_square_array = None
+
         self._set_type_baseline()
         self.clear_unused_attributes()
 
@@ -1765,6 +1770,9 @@ class UVFlag(UVBase):
             if uv.flex_spw_id_array is not None:
                 self.flex_spw_id_array = uv.flex_spw_id_array
 
+        # these describe the weights of the waterfall
+        self.weights_square_array = None
+
         self._set_type_antenna()
         self.history += 'Broadcast to type "antenna". '
 
-- 
2.43.0


From 59b5f09743010786a6deeb558c26ca898d125f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 039/130] fix: UVFlag.to_baseline puts each waterfall row on
 its own time

---
 src/pyuvdata/uvflag/uvflag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index cbb7fef..061d4d7 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1514,7 +1514,7 @@ class UVFlag(UVBase):
                 arr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 warr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 sarr = self.metric_array
-            for i, t in enumerate(np.unique(self.time_array)):
+            for i, t in enumerate(self.time_array):
                 ti = np.where(
                     np.isclose(
                         uv.time_array,
@@ -1588,6 +1588,7 @@ class UVFlag(UVBase):
 
         self.time_array = uv.time_array
         self.lst_array = uv.lst_array
+        self.Ntimes = uv.Ntimes
         self.Nblts = self.time_array.size
 
         for param in self.telescope:
-- 
2.43.0


From 6dc1295c1ab1fd8d257df4042c51aa0b15d30e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 040/130] fix: adding UVFlag objects counts every channel and
 refuses before changing anything

---
 src/pyuvdata/uvflag/uvflag.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 061d4d7..36bd695 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1967,11 +1967,6 @@ class UVFlag(UVBase):
                 "added to object of mode " + this.type + "."
             )
 
-        # Update filename parameter
-        this.filename = utils.tools._combine_filenames(this.filename, other.filename)
-        if this.filename is not None:
-            this._filename.form = (len(this.filename),)
-
         # Simplify axis referencing
         axis = axis.lower()
         type_nums = {"waterfall": 0, "baseline": 1, "antenna": 2}
@@ -2036,6 +2031,11 @@ class UVFlag(UVBase):
                         f"other object is {other_param.value}."
                     )
 
+        # Update filename parameter
+        this.filename = utils.tools._combine_filenames(this.filename, other.filename)
+        if this.filename is not None:
+            this._filename.form = (len(this.filename),)
+
         if axis == "time":
             this.time_array = np.concatenate([this.time_array, other.time_array])
             this.lst_array = np.concatenate([this.lst_array, other.lst_array])
@@ -2136,7 +2136,7 @@ class UVFlag(UVBase):
                     this.freq_array.size, this.spw_array[0], dtype=int
                 )
 
-            this.Nfreqs = np.unique(this.freq_array.flatten()).size
+            this.Nfreqs = this.freq_array.size
 
         elif axis in ["polarization", "pol", "jones"]:
             if this.pol_collapsed:
-- 
2.43.0


From f81145bd6f05b10385c208e8e2eb20b6fbdc2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 041/130] fix: UVFlag.select keeps exactly the requested
 channels and antennas

---
 src/pyuvdata/uvflag/uvflag.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 36bd695..8a554dc 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2538,6 +2538,7 @@ class UVFlag(UVBase):
                             "Antenna number {a} is not present in the "
                             "ant_array".format(a=ant)
                         )
+                ant_inds = sorted(set(ant_inds))
 
         else:
             ant_blt_inds = None
@@ -2682,15 +2683,7 @@ class UVFlag(UVBase):
             if np.array(freq_chans).ndim > 1:
                 freq_chans = np.array(freq_chans).flatten()
             if frequencies is None:
-                frequencies = np.squeeze(self.freq_array)[freq_chans]
-
-            else:
-                frequencies = utils.tools._get_iterable(frequencies)
-                frequencies = np.sort(
-                    list(
-                        set(frequencies) | set(np.squeeze(self.freq_array)[freq_chans])
-                    )
-                )
+                frequencies = []
 
         if frequencies is not None:
             frequencies = utils.tools._get_iterable(frequencies)
@@ -2703,6 +2696,8 @@ class UVFlag(UVBase):
             n_selects += 1
 
             freq_inds = np.zeros(0, dtype=np.int64)
+            if freq_chans is not None:
+                freq_inds = np.append(freq_inds, np.arange(self.Nfreqs)[freq_chans])
             freq_arr_use = self.freq_array
             for f in frequencies:
                 if f in freq_arr_use:
-- 
2.43.0


From f14fb3c5b648f8a5019a90196d50352c8e4e06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 042/130] fix: real power beams are written to beamfits with
 polarizations on the polarization axis

---
 src/pyuvdata/uvbeam/beamfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index cfd1555..4461f9a 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -701,7 +701,10 @@ class BeamFITS(UVBeam):
             )
 
         # Add a third axis to the data for consistency
-        primary_data = primary_data[:, :, np.newaxis]
+        if np.iscomplexobj(self.data_array):
+            primary_data = primary_data[:, :, np.newaxis]
+        else:
+            primary_data = primary_data[:, np.newaxis]
 
         primary_header["CRPIX" + str(ax_nums["feed_pol"])] = 1
 
-- 
2.43.0


From d622a1382097bcbb93a36d2197aceab66e375ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 043/130] fix: saved UVBeam splines are not reused for other
 data or other options

---
 src/pyuvdata/uvbeam/uvbeam.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 1e48a49..92c59c9 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -840,6 +840,11 @@ class UVBeam(UVBase):
 
         return True
 
+    def _clear_saved_interp_functions(self):
+        """Remove saved interpolation functions, they describe the previous data."""
+        if hasattr(self, "saved_interp_functions"):
+            delattr(self, "saved_interp_functions")
+
     def peak_normalize(self):
         """Convert to peak normalization."""
         if self.data_normalization == "solid_angle":
@@ -852,6 +857,7 @@ class UVBeam(UVBase):
             self.data_array[:, :, i, :] /= max_val
             self.bandpass_array[i] *= max_val
         self.data_normalization = "peak"
+        self._clear_saved_interp_functions()
 
     def efield_to_power(
         self,
@@ -994,6 +1000,7 @@ class UVBeam(UVBase):
             power_data = power_data.real
 
         beam_object.data_array = power_data
+        beam_object._clear_saved_interp_functions()
         beam_object.Nfeeds = None
         beam_object.feed_array = None
         if not keep_basis_vector:
@@ -1175,6 +1182,7 @@ class UVBeam(UVBase):
         if self.pixel_coordinate_system != "healpix":
             power_data = power_data.reshape(power_data.shape[:-1] + (Naxes2, Naxes1))
         beam_object.data_array = power_data
+        beam_object._clear_saved_interp_functions()
         beam_object.polarization_array = np.array(
             [
                 utils.polstr2num(ps.upper(), x_orientation=self.x_orientation)
@@ -1533,7 +1541,13 @@ class UVBeam(UVBase):
             for index0 in range(self.Naxes_vec):
                 for pol_return_ind, index2 in enumerate(pol_inds):
                     do_interp = True
-                    key = (freq, index2, index0)
+                    key = (
+                        freq,
+                        index2,
+                        index0,
+                        freq_interp_kind,
+                        str(sorted(spline_opts.items())),
+                    )
                     if reuse_spline:
                         if key in self.saved_interp_functions.keys():
                             do_interp = False
@@ -2102,8 +2116,7 @@ class UVBeam(UVBase):
             if new_uvb.basis_vector_array is not None:
                 new_uvb.basis_vector_array = interp_basis_vector
 
-            if hasattr(new_uvb, "saved_interp_functions"):
-                delattr(new_uvb, "saved_interp_functions")
+            new_uvb._clear_saved_interp_functions()
 
             new_uvb._set_cs_params()
             if run_check:
@@ -2828,6 +2841,7 @@ class UVBeam(UVBase):
             ] = other.coupling_matrix
 
         this.Nfreqs = this.freq_array.size
+        this._clear_saved_interp_functions()
 
         # Check specific requirements
         if this.Nfreqs > 1:
@@ -3251,6 +3265,7 @@ class UVBeam(UVBase):
 
         history_update_string += " using pyuvdata."
         beam_object.history = beam_object.history + history_update_string
+        beam_object._clear_saved_interp_functions()
 
         # check if object is self-consistent
         if run_check:
-- 
2.43.0


From 2c394ccdb3e31600a5de0dfbede1ba665497ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 044/130] fix: efield to power uses every vector component and
 refuses before changing anything

---
 src/pyuvdata/uvbeam/uvbeam.py | 52 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 92c59c9..edb1fef 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -903,6 +903,13 @@ class UVBeam(UVBase):
                 "Conversion to power is not yet implemented for phased_array antennas"
             )
 
+        if self.Naxes_vec != 2 and not keep_basis_vector:
+            raise ValueError(
+                "Conversion to power with 3-vector efields "
+                "is not currently supported because we have "
+                "no examples to work with."
+            )
+
         if inplace:
             beam_object = self
         else:
@@ -913,7 +920,6 @@ class UVBeam(UVBase):
             calc_cross_pols = False
 
         efield_data = beam_object.data_array
-        efield_naxes_vec = beam_object.Naxes_vec
 
         feed_pol_order = [(0, 0)]
         if beam_object.Nfeeds > 1:
@@ -954,32 +960,20 @@ class UVBeam(UVBase):
                 )
         else:
             for pol_i, pair in enumerate(feed_pol_order):
-                if efield_naxes_vec == 2:
-                    for comp_i in range(2):
-                        power_data[0, pol_i] += (
-                            (efield_data[0, pair[0]] * np.conj(efield_data[0, pair[1]]))
-                            * beam_object.basis_vector_array[0, comp_i] ** 2
-                            + (
-                                efield_data[1, pair[0]]
-                                * np.conj(efield_data[1, pair[1]])
-                            )
-                            * beam_object.basis_vector_array[1, comp_i] ** 2
-                            + (
-                                efield_data[0, pair[0]]
-                                * np.conj(efield_data[1, pair[1]])
-                                + efield_data[1, pair[0]]
-                                * np.conj(efield_data[0, pair[1]])
-                            )
-                            * (
-                                beam_object.basis_vector_array[0, comp_i]
-                                * beam_object.basis_vector_array[1, comp_i]
-                            )
+                for comp_i in range(beam_object.Ncomponents_vec):
+                    power_data[0, pol_i] += (
+                        (efield_data[0, pair[0]] * np.conj(efield_data[0, pair[1]]))
+                        * beam_object.basis_vector_array[0, comp_i] ** 2
+                        + (efield_data[1, pair[0]] * np.conj(efield_data[1, pair[1]]))
+                        * beam_object.basis_vector_array[1, comp_i] ** 2
+                        + (
+                            efield_data[0, pair[0]] * np.conj(efield_data[1, pair[1]])
+                            + efield_data[1, pair[0]] * np.conj(efield_data[0, pair[1]])
+                        )
+                        * (
+                            beam_object.basis_vector_array[0, comp_i]
+                            * beam_object.basis_vector_array[1, comp_i]
                         )
-                else:
-                    raise ValueError(
-                        "Conversion to power with 3-vector efields "
-                        "is not currently supported because we have "
-                        "no examples to work with."
                     )
 
         if not calc_cross_pols:
@@ -1138,6 +1132,12 @@ class UVBeam(UVBase):
         if beam_object.beam_type != "efield":
             raise ValueError("beam_type must be efield.")
 
+        if beam_object.Nfeeds != 2 or beam_object.Naxes_vec != 2:
+            raise ValueError(
+                "Conversion to pseudo-stokes power requires two feeds and 2-vector "
+                "efields."
+            )
+
         efield_data = beam_object.data_array
         _sh = beam_object.data_array.shape
         Nfreqs = beam_object.Nfreqs
-- 
2.43.0


From feb6828ad255eb8cff224139023f188b38a57327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 045/130] fix: UVBeam.interp returns the whole bandpass when
 frequencies are kept

---
 src/pyuvdata/uvbeam/uvbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index edb1fef..8232ba8 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1387,7 +1387,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
@@ -1674,7 +1674,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array[0]
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-- 
2.43.0


From ab54e459bedc11d9334ddbf7cc431cb8e3c9df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 046/130] fix: UVBeam.interp refuses misaligned basis vectors
 and unordered pixels of either sign

---
 src/pyuvdata/uvbeam/uvbeam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 8232ba8..1b1d5b2 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1445,8 +1445,8 @@ class UVBeam(UVBase):
         theta_use = theta_vals
 
         if self.basis_vector_array is not None:
-            if np.any(self.basis_vector_array[0, 1, :] > 0) or np.any(
-                self.basis_vector_array[1, 0, :] > 0
+            if np.any(np.abs(self.basis_vector_array[0, 1, :]) > 0) or np.any(
+                np.abs(self.basis_vector_array[1, 0, :]) > 0
             ):
                 # Input basis vectors are not aligned to the native theta/phi
                 # coordinate system
@@ -1653,7 +1653,7 @@ class UVBeam(UVBase):
             raise ValueError(
                 "simple healpix interpolation requires full sky healpix maps."
             )
-        if not np.max(np.abs(np.diff(self.pixel_array))) == 1:
+        if not np.all(np.diff(self.pixel_array) == 1):
             raise ValueError(
                 "simple healpix interpolation requires healpix pixels to be in order."
             )
@@ -1725,8 +1725,8 @@ class UVBeam(UVBase):
         )
 
         if self.basis_vector_array is not None:
-            if np.any(self.basis_vector_array[0, 1, :] > 0) or np.any(
-                self.basis_vector_array[1, 0, :] > 0
+            if np.any(np.abs(self.basis_vector_array[0, 1, :]) > 0) or np.any(
+                np.abs(self.basis_vector_array[1, 0, :]) > 0
             ):
                 """Input basis vectors are not aligned to the native theta/phi
                 coordinate system"""
-- 
2.43.0


From 165499f56da33baf3dfd8e77e948b43b6120b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 047/130] fix: adding UVBeam objects puts each value of the
 second object on its own labels

---
 src/pyuvdata/uvbeam/uvbeam.py | 89 ++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 1b1d5b2..8c667ec 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2423,6 +2423,7 @@ class UVBeam(UVBase):
             "_model_version",
             "_pixel_coordinate_system",
             "_Naxes_vec",
+            "_Ncomponents_vec",
             "_nside",
             "_ordering",
         ]
@@ -2442,29 +2443,6 @@ class UVBeam(UVBase):
                 )
                 raise ValueError(msg)
 
-        # check for presence of optional parameters with a frequency axis in
-        # both objects
-        optional_freq_params = [
-            "_receiver_temperature_array",
-            "_loss_array",
-            "_mismatch_array",
-            "_s_parameters",
-        ]
-        for attr in optional_freq_params:
-            this_attr = getattr(this, attr)
-            other_attr = getattr(other, attr)
-            if (
-                this_attr.value is None or other_attr.value is None
-            ) and this_attr != other_attr:
-                warnings.warn(
-                    "Only one of the UVBeam objects being combined "
-                    "has optional parameter {attr}. After the sum the "
-                    "final object will not have {attr}".format(attr=attr)
-                )
-                if this_attr.value is not None:
-                    this_attr.value = None
-                    setattr(this, attr, this_attr)
-
         # Build up history string
         history_update_string = " Combined data along "
         n_axes = 0
@@ -2499,6 +2477,29 @@ class UVBeam(UVBase):
                                 " cannot be combined."
                             )
 
+        # check for presence of optional parameters with a frequency axis in
+        # both objects
+        optional_freq_params = [
+            "_receiver_temperature_array",
+            "_loss_array",
+            "_mismatch_array",
+            "_s_parameters",
+        ]
+        for attr in optional_freq_params:
+            this_attr = getattr(this, attr)
+            other_attr = getattr(other, attr)
+            if (
+                this_attr.value is None or other_attr.value is None
+            ) and this_attr != other_attr:
+                warnings.warn(
+                    "Only one of the UVBeam objects being combined "
+                    "has optional parameter {attr}. After the sum the "
+                    "final object will not have {attr}".format(attr=attr)
+                )
+                if this_attr.value is not None:
+                    this_attr.value = None
+                    setattr(this, attr, this_attr)
+
         # Update filename parameter
         this.filename = utils.tools._combine_filenames(this.filename, other.filename)
         if this.filename is not None:
@@ -2589,7 +2590,7 @@ class UVBeam(UVBase):
                     [this.data_array, data_zero_pad], axis=data_pix_axis
                 )[..., order]
 
-                if this.beam_type == "efield":
+                if this.basis_vector_array is not None:
                     basisvec_pix_axis = 2
                     basisvec_pad_dims = tuple(
                         list(this.basis_vector_array.shape[0:basisvec_pix_axis])
@@ -2621,7 +2622,7 @@ class UVBeam(UVBase):
                     [this.data_array, data_zero_pad], axis=data_ax1_axis
                 )[..., order]
 
-                if this.beam_type == "efield":
+                if this.basis_vector_array is not None:
                     basisvec_ax1_axis = 3
                     basisvec_pad_dims = tuple(
                         list(this.basis_vector_array.shape[0:basisvec_ax1_axis])
@@ -2654,7 +2655,7 @@ class UVBeam(UVBase):
                     [this.data_array, data_zero_pad], axis=data_ax2_axis
                 )[..., order, :]
 
-                if this.beam_type == "efield":
+                if this.basis_vector_array is not None:
                     basisvec_ax2_axis = 2
                     basisvec_pad_dims = tuple(
                         list(this.basis_vector_array.shape[0:basisvec_ax2_axis])
@@ -2769,12 +2770,15 @@ class UVBeam(UVBase):
                 [this.data_array, data_zero_pad], axis=paxis
             )[:, order, ...]
 
+        def positions(this_arr, other_arr):
+            # where each element of other is on this, the orders can differ
+            order = np.argsort(this_arr)
+            return order[np.searchsorted(this_arr, other_arr, sorter=order)]
+
         # Now populate the data
         if this.beam_type == "power":
             this.Npols = this.polarization_array.shape[0]
-            pol_t2o = np.nonzero(
-                np.isin(this.polarization_array, other.polarization_array)
-            )[0]
+            pol_t2o = positions(this.polarization_array, other.polarization_array)
 
             if len(pnew_inds) > 0:
                 # if this does not have cross pols but other does promote to complex
@@ -2790,31 +2794,40 @@ class UVBeam(UVBase):
                     this.data_array = np.asarray(this.data_array, dtype=dtype_use)
         else:
             this.Nfeeds = this.feed_array.shape[0]
-            pol_t2o = np.nonzero(np.isin(this.feed_array, other.feed_array))[0]
+            pol_t2o = positions(this.feed_array, other.feed_array)
 
-        freq_t2o = np.nonzero(np.isin(this.freq_array, other.freq_array))[0]
+        freq_t2o = positions(this.freq_array, other.freq_array)
 
         if this.pixel_coordinate_system == "healpix":
             this.Npixels = this.pixel_array.shape[0]
-            pix_t2o = np.nonzero(np.isin(this.pixel_array, other.pixel_array))[0]
+            pix_t2o = positions(this.pixel_array, other.pixel_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, pix_t2o)
             ] = other.data_array
-            if this.beam_type == "efield":
+            if this.basis_vector_array is not None:
                 this.basis_vector_array[
-                    np.ix_(np.arange(this.Naxes_vec), np.arange(2), pix_t2o)
+                    np.ix_(
+                        np.arange(this.Naxes_vec),
+                        np.arange(this.Ncomponents_vec),
+                        pix_t2o,
+                    )
                 ] = other.basis_vector_array
         else:
             this.Naxes1 = this.axis1_array.shape[0]
             this.Naxes2 = this.axis2_array.shape[0]
-            ax1_t2o = np.nonzero(np.isin(this.axis1_array, other.axis1_array))[0]
-            ax2_t2o = np.nonzero(np.isin(this.axis2_array, other.axis2_array))[0]
+            ax1_t2o = positions(this.axis1_array, other.axis1_array)
+            ax2_t2o = positions(this.axis2_array, other.axis2_array)
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)
             ] = other.data_array
-            if this.beam_type == "efield":
+            if this.basis_vector_array is not None:
                 this.basis_vector_array[
-                    np.ix_(np.arange(this.Naxes_vec), np.arange(2), ax2_t2o, ax1_t2o)
+                    np.ix_(
+                        np.arange(this.Naxes_vec),
+                        np.arange(this.Ncomponents_vec),
+                        ax2_t2o,
+                        ax1_t2o,
+                    )
                 ] = other.basis_vector_array
 
         this.bandpass_array[np.ix_(freq_t2o)] = other.bandpass_array
-- 
2.43.0


From 65f87850395441363565dfcfe401726419a58b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:40 +0000
Subject: [PATCH 048/130] fix: UVBeam.select keeps labels, data and basis
 vectors together

---
 src/pyuvdata/uvbeam/uvbeam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 8c667ec..360b88a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3011,7 +3011,7 @@ class UVBeam(UVBase):
                     )
 
             beam_object.data_array = beam_object.data_array[..., axis1_inds]
-            if beam_object.beam_type == "efield":
+            if beam_object.basis_vector_array is not None:
                 beam_object.basis_vector_array = beam_object.basis_vector_array[
                     ..., axis1_inds
                 ]
@@ -3045,7 +3045,7 @@ class UVBeam(UVBase):
                     )
 
             beam_object.data_array = beam_object.data_array[..., axis2_inds, :]
-            if beam_object.beam_type == "efield":
+            if beam_object.basis_vector_array is not None:
                 beam_object.basis_vector_array = beam_object.basis_vector_array[
                     ..., axis2_inds, :
                 ]
@@ -3075,7 +3075,7 @@ class UVBeam(UVBase):
             beam_object.pixel_array = beam_object.pixel_array[pix_inds]
 
             beam_object.data_array = beam_object.data_array[..., pix_inds]
-            if beam_object.beam_type == "efield":
+            if beam_object.basis_vector_array is not None:
                 beam_object.basis_vector_array = beam_object.basis_vector_array[
                     ..., pix_inds
                 ]
@@ -3238,10 +3238,10 @@ class UVBeam(UVBase):
                         " polarization_array".format(p=p)
                     )
 
+            pol_inds = sorted(set(pol_inds))
             initial_pols = beam_object.polarization_array.copy()
             final_pols = beam_object.polarization_array[pol_inds]
 
-            pol_inds = sorted(set(pol_inds))
             beam_object.Npols = len(pol_inds)
             beam_object.polarization_array = final_pols
 
-- 
2.43.0


From 06701c4895e86e0ade6ccee52b8e937d7416d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 049/130] fix: keep scan numbers when resampling in time

---
 src/pyuvdata/uvdata/uvdata.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8b8badb..b61855e 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7387,6 +7387,7 @@ class UVData(UVBase):
         temp_data,
         temp_flag,
         temp_nsample,
+        temp_scan_number=None,
         astrometry_library=None,
     ):
         """
@@ -7406,6 +7407,10 @@ class UVData(UVBase):
         self.phase_center_id_array = np.concatenate(
             (self.phase_center_id_array, temp_id_array)
         )
+        if self.scan_number_array is not None:
+            self.scan_number_array = np.concatenate(
+                (self.scan_number_array[inds_to_keep], temp_scan_number)
+            )
         if not self.metadata_only:
             self.data_array = self.data_array[inds_to_keep]
             self.flag_array = self.flag_array[inds_to_keep]
@@ -7570,6 +7575,12 @@ class UVData(UVBase):
             temp_unprojected_blts = None
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
+        if self.scan_number_array is None:
+            temp_scan_number = None
+        else:
+            temp_scan_number = np.zeros(
+                (temp_Nblts,), dtype=self.scan_number_array.dtype
+            )
         if self.metadata_only:
             temp_data = None
             temp_flag = None
@@ -7585,6 +7596,8 @@ class UVData(UVBase):
             i1 = i0 + n_new_samples[i]
             temp_baseline[i0:i1] = self.baseline_array[ind]
             temp_id_array[i0:i1] = self.phase_center_id_array[ind]
+            if temp_scan_number is not None:
+                temp_scan_number[i0:i1] = self.scan_number_array[ind]
             if initial_nphase_ids > 1:
                 if initial_driftscan:
                     temp_initial_ids[i0:i1] = initial_ids[ind]
@@ -7634,6 +7647,7 @@ class UVData(UVBase):
             temp_data=temp_data,
             temp_flag=temp_flag,
             temp_nsample=temp_nsample,
+            temp_scan_number=temp_scan_number,
             astrometry_library=astrometry_library,
         )
 
@@ -7930,6 +7944,12 @@ class UVData(UVBase):
         temp_id_array = np.zeros((temp_Nblts,), dtype=int)
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
+        if self.scan_number_array is None:
+            temp_scan_number = None
+        else:
+            temp_scan_number = np.zeros(
+                (temp_Nblts,), dtype=self.scan_number_array.dtype
+            )
         if initial_nphase_ids > 1 and initial_driftscan:
             temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
         else:
@@ -7994,6 +8014,10 @@ class UVData(UVBase):
                     temp_id_array[temp_idx] = self.phase_center_id_array[
                         averaging_idx[0]
                     ]
+                    if temp_scan_number is not None:
+                        temp_scan_number[temp_idx] = self.scan_number_array[
+                            averaging_idx[0]
+                        ]
                     if initial_nphase_ids > 1:
                         if initial_unprojected:
                             unique_unprojected = np.unique(
@@ -8103,6 +8127,7 @@ class UVData(UVBase):
             temp_data=temp_data,
             temp_flag=temp_flag,
             temp_nsample=temp_nsample,
+            temp_scan_number=temp_scan_number,
             astrometry_library=astrometry_library,
         )
 
-- 
2.43.0


From 8cb27eca3636f3c619a668a1ed765f1d563b7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 050/130] fix: update baseline and antenna counts after
 resampling in time

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index b61855e..43905da 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7431,6 +7431,8 @@ class UVData(UVBase):
         # update metadata
         self.Nblts = self.baseline_array.shape[0]
         self.Ntimes = np.unique(self.time_array).size
+        self.Nbls = np.unique(self.baseline_array).size
+        self.Nants_data = self._calc_nants_data()
         self.uvw_array = np.zeros((self.Nblts, 3))
 
         # set lst array
-- 
2.43.0


From 5f5b798746158261e1d03e59ef7787253c10ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 051/130] fix: resampling drifting data leaves other phase
 centers alone

---
 src/pyuvdata/uvdata/uvdata.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 43905da..3d9b67c 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7535,7 +7535,7 @@ class UVData(UVBase):
         initial_nphase_ids = np.unique(self.phase_center_id_array).size
         if initial_driftscan:
             initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+            initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -7551,7 +7551,10 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                # leave any data that are already phased to a fixed position alone
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # we want the ceil of this, but we don't want to get the wrong answer
         # when the number is very close to an integer but just barely above it.
@@ -7672,7 +7675,7 @@ class UVData(UVBase):
                     if initial_nphase_ids > 1:
                         select_mask = initial_ids == cat_id
                         if not np.any(select_mask):
-                            select_mask = None
+                            continue
                     else:
                         select_mask = None
                     self.phase(
@@ -7923,7 +7926,7 @@ class UVData(UVBase):
         initial_nphase_ids = np.unique(self.phase_center_id_array).size
         if initial_driftscan:
             initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+            initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -7939,7 +7942,10 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                # leave any data that are already phased to a fixed position alone
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # make temporary arrays
         temp_baseline = np.zeros((temp_Nblts,), dtype=np.uint64)
@@ -8152,7 +8158,7 @@ class UVData(UVBase):
                     if initial_nphase_ids > 1:
                         select_mask = initial_ids == cat_id
                         if not np.any(select_mask):
-                            select_mask = None
+                            continue
                     else:
                         select_mask = None
                     self.phase(
-- 
2.43.0


From de10c0057c2f4cc26c1f7806242fd9b0f1533dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 052/130] fix: upsample_in_time dropped integrations within
 tolerance of the maximum

---
 src/pyuvdata/uvdata/uvdata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 3d9b67c..ee1f113 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7641,8 +7641,9 @@ class UVData(UVBase):
 
             i0 = i1
 
-        # harmonize temporary arrays with existing ones
-        inds_to_keep = np.nonzero(self.integration_time <= max_int_time)
+        # harmonize temporary arrays with existing ones, keeping everything that did
+        # not need to be upsampled
+        inds_to_keep = np.setdiff1d(np.arange(self.Nblts), inds_to_upsample[0])
         self._harmonize_resample_arrays(
             inds_to_keep=inds_to_keep,
             temp_baseline=temp_baseline,
-- 
2.43.0


From 3151e09d4e5d3a4803c4e57efadf9b6b36ed7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 053/130] fix: downsample_in_time with a single integration on
 a baseline

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index ee1f113..07b7a60 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7891,7 +7891,7 @@ class UVData(UVBase):
                         "The output may include averages across long "
                         "time gaps.".format(bl=self.baseline_to_antnums(bl))
                     )
-                elif not np.isclose(
+                elif dtime.size > 0 and not np.isclose(
                     dtime[0],
                     int_times[0],
                     rtol=self._integration_time.tols[0],
-- 
2.43.0


From 60b3ab9fa776a9b2d8e9d015dad7e66c39048352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 054/130] fix: frequency_average with fully flagged channels in
 later spectral windows

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 07b7a60..9d64cc7 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8514,10 +8514,10 @@ class UVData(UVBase):
                         # May not happen due to propagate_flags keyword
                         # mask should be left alone otherwise
                         fully_flagged = np.all(
-                            reg_mask[ax0_inds, this_chan, :, ax2_inds], axis=1
+                            reg_mask[ax0_inds, chan_ind, :, ax2_inds], axis=1
                         )
                         ff_inds = np.nonzero(fully_flagged)
-                        reg_mask[ax0_inds[ff_inds], this_chan, :, ax2_inds[ff_inds]] = (
+                        reg_mask[ax0_inds[ff_inds], chan_ind, :, ax2_inds[ff_inds]] = (
                             False
                         )
                 if this_ragged:
-- 
2.43.0


From 13e575c368083d1327da9368781b4e77917f18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 055/130] fix: frequency_average keeps spectral windows
 consistent

---
 src/pyuvdata/uvdata/uvdata.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 9d64cc7..4b5b27f 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8342,6 +8342,13 @@ class UVData(UVBase):
 
         """
         if self.Nspws > 1 and not respect_spws:
+            if self.flex_spw_polarization_array is not None:
+                if np.unique(self.flex_spw_polarization_array).size > 1:
+                    raise ValueError(
+                        "Cannot average across spectral windows that have different "
+                        "polarizations."
+                    )
+                self.flex_spw_polarization_array = self.flex_spw_polarization_array[:1]
             # Put everything in one spectral window.
             self.Nspws = 1
             self.flex_spw_id_array = np.zeros(self.Nfreqs, dtype=int)
@@ -8604,6 +8611,16 @@ class UVData(UVBase):
             self.data_array = final_data_array
             self.nsample_array = final_nsample_array
 
+        # drop any spectral windows that no longer have any channels
+        spws_left = np.isin(self.spw_array, self.flex_spw_id_array)
+        if not np.all(spws_left):
+            self.spw_array = self.spw_array[spws_left]
+            if self.flex_spw_polarization_array is not None:
+                self.flex_spw_polarization_array = self.flex_spw_polarization_array[
+                    spws_left
+                ]
+            self.Nspws = self.spw_array.size
+
         # update Nfreqs
         self.Nfreqs = final_nchan
 
-- 
2.43.0


From d6492b5a521d8dcfebeb821af8077f111a9cfee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 056/130] fix: frequency_average of one channel with eq_coeffs

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 4b5b27f..cd95268 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8369,7 +8369,7 @@ class UVData(UVBase):
 
         if self.eq_coeffs is not None:
             eq_coeff_diff = np.diff(self.eq_coeffs, axis=1)
-            if np.abs(np.max(eq_coeff_diff)) > 0:
+            if np.any(eq_coeff_diff != 0):
                 warnings.warn(
                     "eq_coeffs vary by frequency. They should be "
                     "applied to the data using `remove_eq_coeffs` "
-- 
2.43.0


From 569efd3f441e6c07fa63b81aec5851c5fce37cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 057/130] fix: compress_by_redundancy conjugates cross-hand
 polarizations properly

---
 src/pyuvdata/uvdata/uvdata.py | 37 +++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index cd95268..810ff7a 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8806,12 +8806,6 @@ class UVData(UVBase):
             new_obj.select(bls=bl_ants, keep_all_metadata=keep_all_metadata)
 
             if not self.metadata_only:
-                # If the baseline is in the "conjugated" list, we will need to
-                # fix the conjugation on assignment (since the visibilities are
-                # tabulated assuming that the baseline position is on the opposite
-                # side of the uvw origin).
-                fix_conj = np.isin(new_obj.baseline_array, conjugates)
-
                 # initalize the data like arrays
                 new_data_shape = (new_obj.Nblts, new_obj.Nfreqs, new_obj.Npols)
                 temp_data_array = np.zeros(new_data_shape, dtype=self.data_array.dtype)
@@ -8824,9 +8818,29 @@ class UVData(UVBase):
                     conj_group = set(group).intersection(conjugates)
                     reg_group = list(set(group) - conj_group)
                     conj_group = list(conj_group)
+                    if group[0] in conj_group:
+                        # The average is assigned to the first baseline in the group,
+                        # so conjugate the baselines with the opposite orientation
+                        # from that one.
+                        reg_group, conj_group = conj_group, reg_group
                 else:
                     reg_group = group
                     conj_group = []
+                conj_pol_inds = slice(None)
+                if len(conj_group) > 0 and not self.metadata_only:
+                    # cross-hand polarizations are swapped under conjugation
+                    if self.flex_spw_polarization_array is None:
+                        conj_pol_inds = utils.pol.reorder_conj_pols(
+                            self.polarization_array
+                        )
+                    elif np.any(
+                        utils.pol.conj_pol(self.flex_spw_polarization_array)
+                        != self.flex_spw_polarization_array
+                    ):
+                        raise ValueError(
+                            "Cannot average over conjugated baselines for flex-pol "
+                            "objects with cross-hand polarizations."
+                        )
                 group_times = []
                 group_inds = []
                 conj_group_inds = []
@@ -8923,13 +8937,13 @@ class UVData(UVBase):
                         vis_to_avg = np.concatenate(
                             (
                                 self.data_array[regular_inds],
-                                np.conj(self.data_array[conj_inds]),
+                                np.conj(self.data_array[conj_inds][..., conj_pol_inds]),
                             )
                         )
                         nsample_to_avg = np.concatenate(
                             (
                                 self.nsample_array[regular_inds],
-                                self.nsample_array[conj_inds],
+                                self.nsample_array[conj_inds][..., conj_pol_inds],
                             )
                         )
                         flags_to_avg = np.concatenate(
@@ -8951,13 +8965,6 @@ class UVData(UVBase):
                         avg_nsample = np.sum(nsample_to_avg, axis=0)
                         avg_flag = np.all(flags_to_avg, axis=0)
                         temp_data_array[this_obj_ind] = avg_vis
-
-                        # If we need to flip the conjugation, to that on the
-                        # value assignment here.
-                        if fix_conj[this_obj_ind]:
-                            temp_data_array[this_obj_ind] = np.conj(avg_vis)
-                        else:
-                            temp_data_array[this_obj_ind] = avg_vis
                         temp_nsample_array[this_obj_ind] = avg_nsample
                         temp_flag_array[this_obj_ind] = avg_flag
 
-- 
2.43.0


From 1f2e80c15533180a4a40503d073005f3808c1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 058/130] fix: compress_by_redundancy averages fully flagged
 visibilities

---
 src/pyuvdata/uvdata/uvdata.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 810ff7a..6b7c765 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8947,13 +8947,14 @@ class UVData(UVBase):
                             )
                         )
                         flags_to_avg = np.concatenate(
-                            (self.flag_array[regular_inds], self.flag_array[conj_inds])
+                            (
+                                self.flag_array[regular_inds],
+                                self.flag_array[conj_inds][..., conj_pol_inds],
+                            )
                         )
-                        # if all data is flagged, average it all as if it were not
-                        if np.all(flags_to_avg):
-                            mask = np.zeros_like(flags_to_avg)
-                        else:
-                            mask = flags_to_avg
+                        # if all data is flagged for a particular visibility, average
+                        # it all as if it were not
+                        mask = flags_to_avg & ~np.all(flags_to_avg, axis=0)
 
                         vis_to_avg = np.ma.masked_array(vis_to_avg, mask=mask)
 
-- 
2.43.0


From 29687a6aad7fb70f5c81393f3c5b5fa0e6353ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:32 +0000
Subject: [PATCH 059/130] fix: inflate_by_redundancy with metadata only and
 scan numbers

---
 src/pyuvdata/uvdata/uvdata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6b7c765..2678f75 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -9057,9 +9057,12 @@ class UVData(UVBase):
             warnings.warn("Missing some redundant groups. Filling in available data.")
 
         # blt_map is an index array mapping compressed blti indices to uncompressed
-        self.data_array = self.data_array[blt_map, ...]
-        self.nsample_array = self.nsample_array[blt_map, ...]
-        self.flag_array = self.flag_array[blt_map, ...]
+        if not self.metadata_only:
+            self.data_array = self.data_array[blt_map, ...]
+            self.nsample_array = self.nsample_array[blt_map, ...]
+            self.flag_array = self.flag_array[blt_map, ...]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[blt_map]
         self.time_array = self.time_array[blt_map]
         self.lst_array = self.lst_array[blt_map]
         self.integration_time = self.integration_time[blt_map]
-- 
2.43.0


From 50c756d98dddd2d2b3d2ee0f91485b0ee3aeeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 060/130] fix: write_ms_field for objects with time ranges

---
 src/pyuvdata/utils/io/ms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/io/ms.py b/src/pyuvdata/utils/io/ms.py
index 81a7aee..6d01cb9 100644
--- a/src/pyuvdata/utils/io/ms.py
+++ b/src/pyuvdata/utils/io/ms.py
@@ -724,9 +724,11 @@ def write_ms_field(filepath, uvobj=None, phase_center_catalog=None, time_val=Non
 
     if uvobj is not None:
         phase_center_catalog = uvobj.phase_center_catalog
-        time_val = (
-            Time(np.median(uvobj.time_array), format="jd", scale="utc").mjd * 86400.0
-        )
+        time_array = uvobj.time_array
+        if time_array is None:
+            # UVCal objects can have time ranges rather than times
+            time_array = uvobj.time_range
+        time_val = Time(np.median(time_array), format="jd", scale="utc").mjd * 86400.0
 
     tabledesc = tables.required_ms_desc("FIELD")
     dminfo = tables.makedminfo(tabledesc)
-- 
2.43.0


From ccfe3a1c7a9f48d5e41b57993f3bba29357bcee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 061/130] fix: uvcalibrate matches times and frequencies that
 are ordered differently

---
 src/pyuvdata/utils/uvcalibrate.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/uvcalibrate.py b/src/pyuvdata/utils/uvcalibrate.py
index fb01f55..d7863f4 100644
--- a/src/pyuvdata/utils/uvcalibrate.py
+++ b/src/pyuvdata/utils/uvcalibrate.py
@@ -495,6 +495,25 @@ def uvcalibrate(
             channel_width=channel_width,
         )
 
+    # map the times and frequencies on the UVData object to the matching ones on the
+    # UVCal object, they do not need to be in the same order on the two objects.
+    if uvcal.time_range is None and uvcal_use.Ntimes > 1:
+        trange_ind_arr = np.array(
+            [np.argmin(np.abs(uvcal_use.time_array - time)) for time in uvdata_times]
+        )[uvd_time_ri]
+
+    if uvcal_use.Nfreqs == uvdata.Nfreqs and np.allclose(
+        uvcal_use.freq_array,
+        uvdata.freq_array,
+        atol=uvdata._freq_array.tols[1],
+        rtol=uvdata._freq_array.tols[0],
+    ):
+        freq_ind_arr = np.arange(uvdata.Nfreqs)
+    else:
+        freq_ind_arr = np.array(
+            [np.argmin(np.abs(uvcal_use.freq_array - freq)) for freq in uvdata.freq_array]
+        )
+
     # D-term calibration
     if d_term_cal:
         # check for D-terms
@@ -559,7 +578,9 @@ def uvcalibrate(
                 ).T  # tranpose to match uvdata shape
             flag = (uvcal_use.get_flags(uvcal_key1) | uvcal_use.get_flags(uvcal_key2)).T
 
-            if uvcal.time_range is not None and uvcal.Ntimes > 1:
+            gain = gain[:, freq_ind_arr]
+            flag = flag[:, freq_ind_arr]
+            if uvcal_use.Ntimes > 1:
                 gain = gain[trange_ind_arr[blt_inds], :]
                 flag = flag[trange_ind_arr[blt_inds], :]
 
-- 
2.43.0


From cbcc5d05028e951ea7f39d2c3773dbea8f5f209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 062/130] fix: calfits refuses wide-band gains and flex-Jones
 objects

---
 src/pyuvdata/uvcal/calfits.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index b70a649..1559db2 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -80,6 +80,12 @@ class CALFITS(UVCal):
                 "The calfits format does not support multiple spectral windows"
             )
 
+        if self.cal_type == "gain" and self.wide_band:
+            raise ValueError("The calfits format does not support wide-band gains")
+
+        if self.flex_jones_array is not None:
+            raise ValueError("The calfits format does not support flex-Jones objects")
+
         if run_check:
             self.check(
                 check_extra=check_extra, run_check_acceptability=run_check_acceptability
-- 
2.43.0


From 270ca4124049b8fbe8270c6a948b29ee6f2d4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 063/130] fix: calfits frequency increment of descending
 frequencies

---
 src/pyuvdata/uvcal/calfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index 1559db2..919911a 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -118,7 +118,10 @@ class CALFITS(UVCal):
                 )
                 delta_freq_array = rounded_spacing[0]
             else:
-                delta_freq_array = np.median(self.channel_width)
+                # channel widths are positive even if the frequencies are descending
+                delta_freq_array = np.median(self.channel_width) * np.sign(
+                    self.freq_array[1] - self.freq_array[0]
+                )
         else:
             if self.channel_width is not None:
                 delta_freq_array = self.channel_width[0]
-- 
2.43.0


From 622f3c0ae995f787ba53391f56aefc8d7a6c8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 064/130] fix: calfits truncates long antenna names

---
 src/pyuvdata/uvcal/calfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index 919911a..b638519 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -456,8 +456,9 @@ class CALFITS(UVCal):
         prihdu = fits.PrimaryHDU(data=pridata, header=prihdr)
 
         # ant HDU
+        name_len = max(8, *(len(name) for name in self.telescope.antenna_names))
         col1 = fits.Column(
-            name="ANTNAME", format="8A", array=self.telescope.antenna_names
+            name="ANTNAME", format=f"{name_len}A", array=self.telescope.antenna_names
         )
         col2 = fits.Column(
             name="ANTINDEX", format="D", array=self.telescope.antenna_numbers
-- 
2.43.0


From 10d78d5c3eaa05ac80a40f620d606d3ba4b892b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 065/130] fix: calfits leaves the channel width in the extra
 keywords of delay files

---
 src/pyuvdata/uvcal/calfits.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index b638519..172790b 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -689,6 +689,7 @@ class CALFITS(UVCal):
             if self.cal_type == "delay":
                 self._set_delay()
                 self.Nfreqs = 1
+                hdr.pop("CHWIDTH", None)
 
                 sechdu = fname[hdunames["FLAGS"]]
                 assert self.Nspws == 1, (
-- 
2.43.0


From f200f0ddbd5550ee0d93bbf17320b65fd1c99c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 066/130] fix: new_uvcal_from_uvdata shares the frequency
 arrays of the UVData object

---
 src/pyuvdata/uvcal/initializers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 338b4f6..c1695b3 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -5,6 +5,7 @@
 """From-memory initializers for UVCal objects."""
 from __future__ import annotations
 
+import copy
 import warnings
 from typing import Literal
 
@@ -468,10 +469,13 @@ def new_uvcal_from_uvdata(
             freq_array = kwargs.pop("freq_array", None)
             flex_spw_id_array = kwargs.pop("flex_spw_id_array", None)
         else:
-            freq_array = uvdata.freq_array
-            channel_width = uvdata.channel_width
-            flex_spw_id_array = getattr(
-                uvdata, "flex_spw_id_array", kwargs.get("flex_spw_id_array", None)
+            # copy so that the new object does not share arrays with the UVData object
+            freq_array = copy.copy(uvdata.freq_array)
+            channel_width = copy.copy(uvdata.channel_width)
+            flex_spw_id_array = copy.copy(
+                getattr(
+                    uvdata, "flex_spw_id_array", kwargs.get("flex_spw_id_array", None)
+                )
             )
         freq_range = None
         if "freq_range" in kwargs:
-- 
2.43.0


From b16ce6c73a7fbb911a9d0b76898667971a83bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 067/130] fix: new_uvcal_from_uvdata orders the antenna
 diameters differently

---
 src/pyuvdata/uvcal/initializers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index c1695b3..816e1d3 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -549,7 +549,9 @@ def new_uvcal_from_uvdata(
                 new_telescope.antenna_diameters is not None
                 and "antenna_diameters" not in kwargs
             ):
+                # these need to follow the sorting of the antennas below
                 antenna_diameters = new_telescope.antenna_diameters[idx]
+                antenna_diameters = antenna_diameters[np.argsort(antenna_numbers)]
             elif "antenna_diameters" in kwargs:
                 antenna_diameters = kwargs.pop("antenna_diameters")
             else:
-- 
2.43.0


From 19c6794cccb774d5f5dc7b7daa20c8d7ab390cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 068/130] fix: ms_cal does not restore the extra keywords

---
 src/pyuvdata/uvcal/ms_cal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 289be09..3046b60 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -126,6 +126,7 @@ class MSCal(UVCal):
         for keyword in ["CASA_Version", "MSName"]:
             if keyword in main_keywords:
                 self.extra_keywords[keyword] = main_keywords[keyword]
+        self.extra_keywords.update(main_keywords.get("pyuvdata_extra", {}))
 
         # open table with antenna location information
         ant_info = ms_utils.read_ms_antenna(filepath)
-- 
2.43.0


From 16b893f16639f5a366602d695b9cea4e2e56f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 069/130] fix: ms_cal does not restore the calibration style

---
 src/pyuvdata/uvcal/ms_cal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 3046b60..fd7fbf1 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -240,9 +240,9 @@ class MSCal(UVCal):
         if "pyuvdata_cal_style" in main_keywords:
             self.cal_style = main_keywords["pyuvdata_cal_style"]
             if self.cal_style == "sky":
-                self._set_sky
+                self._set_sky()
             elif self.cal_style == "redundant":
-                self._set_redundant
+                self._set_redundant()
         else:
             self.sky_catalog = "CASA (import)"
             self._set_sky()
-- 
2.43.0


From 8a5e5bf6800ccacfbc9ef2f2d416620b0bcb9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 070/130] fix: ms_cal records the jones terms in another order
 than the gains

---
 src/pyuvdata/uvcal/ms_cal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index fd7fbf1..8c1ea7e 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -482,8 +482,11 @@ class MSCal(UVCal):
             if self.telescope.x_orientation is not None:
                 ms.putkeyword("pyuvdata_xorient", self.telescope.x_orientation)
 
+            # Determine polarization order for writing out in CASA standard order.
+            pol_order = utils.pol.determine_pol_order(self.jones_array, order="CASA")
+
             if self.jones_array is not None:
-                ms.putkeyword("pyuvdata_jones", self.jones_array)
+                ms.putkeyword("pyuvdata_jones", self.jones_array[pol_order])
 
             if self.flex_jones_array is not None:
                 ms.putkeyword("pyuvdata_flex_jones", self.flex_jones_array)
@@ -613,9 +616,7 @@ class MSCal(UVCal):
             ms.putcol("SCAN_NUMBER", scan_number_array)
             ms.putcol("OBSERVATION_ID", obs_id_array)
 
-            # Determine polarization order for writing out in CASA standard order, check
-            # if this order can be represented by a single slice.
-            pol_order = utils.pol.determine_pol_order(self.jones_array, order="CASA")
+            # Check if the polarization order can be represented by a single slice.
             [pol_order], _ = utils.tools._convert_to_slices(
                 pol_order, max_nslice=1, return_index_on_fail=True
             )
-- 
2.43.0


From bd473731139aa0fee3179e7e82691148f1989e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 071/130] fix: ms_cal total quality of several windows

---
 src/pyuvdata/uvcal/ms_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 8c1ea7e..07447bd 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -633,7 +633,7 @@ class MSCal(UVCal):
                 if self.quality_array is not None:
                     qual_arr *= self.quality_array[:, spw_sel, :, :]
                 if self.total_quality_array is not None:
-                    qual_arr *= self.total_quality_array[0][spw_sel, :, :]
+                    qual_arr *= self.total_quality_array[..., spw_sel, :, :]
 
                 # We're going to leave a placeholder for SNR for now, since it's
                 # somewhat redundant and not totally clear how it's calculated.
-- 
2.43.0


From ffd41a027ae60fbe4fa8da44a8aca85c51c67b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 072/130] fix: remove_flex_jones with windows of different
 lengths

---
 src/pyuvdata/uvcal/uvcal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 5b58561..adb036d 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -850,6 +850,8 @@ class UVCal(UVBase):
                 # back to itself.
                 spw_match = spw1
                 for spw2, (freqs2, chwidth2) in spw_freqs.items():
+                    if freqs1.shape != freqs2.shape:
+                        continue
                     if np.allclose(freqs1, freqs2, rtol=ftol[0], atol=ftol[1]):
                         if np.allclose(chwidth1, chwidth2, rtol=ctol[0], atol=ctol[1]):
                             spw_match = spw2
-- 
2.43.0


From 75359762592a6c5291c4e5406acf0e20c711742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 073/130] fix: flex-Jones conversions with a total quality
 array

---
 src/pyuvdata/uvcal/uvcal.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index adb036d..89f61a8 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -932,10 +932,11 @@ class UVCal(UVBase):
             for name, param in zip(self._data_params, self.data_like_parameters):
                 if param is None:
                     continue
-                # Update the parameter shape with
+                # Update the parameter shape with the new axis lengths. Count axes from
+                # the end, since total_quality_array has no antenna axis.
                 new_shape = list(param.shape)
-                new_shape[1] = self.Nspws if self.wide_band else self.Nfreqs
-                new_shape[3] = self.Njones
+                new_shape[-3] = self.Nspws if self.wide_band else self.Nfreqs
+                new_shape[-1] = self.Njones
                 new_param = np.full(new_shape, name == "flag_array", dtype=param.dtype)
                 for idx, old_spw in enumerate(spw_map):
                     new_fidx = freq_index == spw_map[old_spw]
@@ -943,7 +944,7 @@ class UVCal(UVBase):
                     # above (and marks the original indexing positions of the object)
                     old_fidx = index_check == old_spw
                     jones_idx = jones_array.index(self.flex_jones_array[idx])
-                    new_param[:, new_fidx, :, jones_idx] = param[:, old_fidx, :, 0]
+                    new_param[..., new_fidx, :, jones_idx] = param[..., old_fidx, :, 0]
                 setattr(self, name, new_param)
 
         # Finally, drop flex_jones now that we no longer need it's info
@@ -1022,7 +1023,7 @@ class UVCal(UVBase):
                 spw_screen = spw_id_arr == spw
 
                 # Grab from the right Jones-position and plug values in
-                new_param[:, spw_screen, :, 0] = param[:, spw_screen, :, jones_idx]
+                new_param[..., spw_screen, :, 0] = param[..., spw_screen, :, jones_idx]
 
             # Update the attribute with the new values
             setattr(self, name, new_param)
@@ -1088,11 +1089,13 @@ class UVCal(UVBase):
                 if param is None:
                     continue
                 # Make into a list so that its mutable
-                old_shape = param.shape
-                # ("Nants_data", "Nfreqs", "Ntimes", "Njones"),
-                # Extend the second axis by njones, shrink the last axis to 1
-                new_shape = [old_shape[0], old_shape[1] * njones, old_shape[2], 1]
-                param = np.transpose(param, (0, 3, 1, 2)).reshape(new_shape)
+                new_shape = list(param.shape)
+                # ("Nants_data", "Nfreqs", "Ntimes", "Njones"), though note that there
+                # is no antenna axis for total_quality_array.
+                # Extend the frequency axis by njones, shrink the last axis to 1
+                new_shape[-3] *= njones
+                new_shape[-1] = 1
+                param = np.moveaxis(param, -1, -3).reshape(new_shape)
                 setattr(self, name, param)
 
     def set_telescope_params(
-- 
2.43.0


From b48084b2d51e1a017af7f95c9f3aec8228ec0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 074/130] fix: flex-pol conversions with equalisation
 coefficients

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 2678f75..67dcf34 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1870,6 +1870,8 @@ class UVData(UVBase):
             # now things are in the correct order to do a simple reshape
             self.freq_array = freq_array_use[: self.Nfreqs]
             self.channel_width = self.channel_width[: self.Nfreqs]
+            if self.eq_coeffs is not None:
+                self.eq_coeffs = self.eq_coeffs[:, : self.Nfreqs]
 
             self.polarization_array = pol_array_check[
                 np.sort(np.unique(pol_array_check, return_index=True)[1])
@@ -2078,6 +2080,8 @@ class UVData(UVBase):
         freq_array_use = self.freq_array
         self.freq_array = np.tile(freq_array_use, self.Npols)
         self.channel_width = np.tile(self.channel_width, self.Npols)
+        if self.eq_coeffs is not None:
+            self.eq_coeffs = np.tile(self.eq_coeffs, (1, self.Npols))
         if not self.metadata_only:
             # we use the order="F" parameter here to ensure that polarization is the
             # slowest changing axis
-- 
2.43.0


From 1de0080bf09a6b0b8c88ed90c352cb6fcff4842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 075/130] fix: normalize_by_autos of objects that are not
 ordered in time

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 67dcf34..0cf1b81 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -12074,7 +12074,7 @@ class UVData(UVBase):
         # group the data by time.
         time_ordered = not np.any(self.time_array[:-1] > self.time_array[1:])
         blt_idx = np.arange(self.Nblts) if time_ordered else np.argsort(self.time_array)
-        ordered_time = self.time_array[blt_idx if time_ordered else ...]
+        ordered_time = self.time_array[... if time_ordered else blt_idx]
 
         # Normally time has a fixed atol, but verify that this is the case
         time_tol = self._time_array.tols[1]
-- 
2.43.0


From 9a7a3dc66a234d722f5b7d2d566575d8d8e30e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:03 +0000
Subject: [PATCH 076/130] fix: comparing dictionary attributes of different
 types raises

---
 src/pyuvdata/parameter.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/parameter.py b/src/pyuvdata/parameter.py
index fac86c3..c41add2 100644
--- a/src/pyuvdata/parameter.py
+++ b/src/pyuvdata/parameter.py
@@ -117,6 +117,8 @@ def _param_dict_equal(this_dict, other_dict):
         for key in this_lower.keys():
             if isinstance(this_lower[key], dict):
                 # nested dict, use recursion
+                if not isinstance(other_lower[key], dict):
+                    return False, f", key {key} is a dict, but other is not"
                 subdict_equal, subdict_message = _param_dict_equal(
                     this_lower[key], other_lower[key]
                 )
@@ -142,13 +144,21 @@ def _param_dict_equal(this_dict, other_dict):
                 if this_array.shape != other_array.shape:
                     message_str = f", key {key} is not equal"
                     return False, message_str
-                if np.allclose(this_array, other_array):
+                try:
+                    arrays_equal = np.allclose(this_array, other_array)
+                except TypeError:
+                    # not numeric, test for equality
+                    arrays_equal = np.array_equal(this_array, other_array)
+                if arrays_equal:
                     continue
                 else:
                     message_str = f", key {key} is not equal"
                     return False, message_str
             else:
-                # this isn't a list, array or tuple
+                # at least one of these isn't a list, array or tuple
+                if np.ndim(this_lower[key]) != np.ndim(other_lower[key]):
+                    message_str = f", key {key} is not equal"
+                    return False, message_str
                 try:
                     if np.isclose(this_lower[key], other_lower[key]):
                         continue
-- 
2.43.0


From 372b28089261c1f2e2e1d5a73dd0ff5befaf7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:03 +0000
Subject: [PATCH 077/130] fix: fixing autos of flexible polarization objects

---
 src/pyuvdata/uvdata/uvdata.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0cf1b81..e585af3 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2121,12 +2121,23 @@ class UVData(UVBase):
         # Only these pols have "true" auto-correlations, that we'd expect
         # to be real only. Select on only them
         auto_pol_list = ["xx", "yy", "rr", "ll", "pI", "pQ", "pU", "pV"]
-        pol_screen = np.array(
-            [
-                utils.POL_NUM2STR_DICT[pol] in auto_pol_list
-                for pol in self.polarization_array
-            ]
-        )
+        if self.flex_spw_polarization_array is not None:
+            # every channel has the polarization of its spectral window
+            spw_pols = dict(zip(self.spw_array, self.flex_spw_polarization_array))
+            pol_screen = np.array(
+                [
+                    [utils.POL_NUM2STR_DICT[spw_pols[spw]] in auto_pol_list]
+                    for spw in self.flex_spw_id_array
+                ]
+            )
+        else:
+            pol_screen = np.array(
+                [
+                    utils.POL_NUM2STR_DICT[pol] in auto_pol_list
+                    for pol in self.polarization_array
+                ]
+            )
+            pol_screen = np.broadcast_to(pol_screen, (self.Nfreqs, self.Npols))
 
         # Make sure we actually have work to do here, otherwise skip all of this
         if (np.any(pol_screen) and np.any(auto_screen)) and not (
@@ -2137,7 +2148,7 @@ class UVData(UVBase):
             auto_data = self.data_array[auto_screen]
 
             # Set the autos to be real-only by taking the absolute value
-            auto_data[:, :, pol_screen] = np.abs(auto_data[:, :, pol_screen])
+            auto_data[:, pol_screen] = np.abs(auto_data[:, pol_screen])
 
             # Finally, plug the modified values back into data_array
             self.data_array[auto_screen] = auto_data
-- 
2.43.0


From 25364c97b9fff6a4297697dcdb0f33c621a07c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:03 +0000
Subject: [PATCH 078/130] fix: sum_vis refuses objects that were read from
 different files

---
 src/pyuvdata/uvdata/uvdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e585af3..6db9a68 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6365,7 +6365,7 @@ class UVData(UVBase):
         )
 
         compatibility_params = list(this.__iter__())
-        remove_params = ["_history", "_data_array", "_extra_keywords"]
+        remove_params = ["_history", "_data_array", "_extra_keywords", "_filename"]
 
         # Add underscores to override_params to match list from __iter__()
         # Add to parameters to be removed
@@ -6438,6 +6438,8 @@ class UVData(UVBase):
 
         # merge file names
         this.filename = utils.tools._combine_filenames(this.filename, other.filename)
+        if this.filename is not None:
+            this._filename.form = (len(this.filename),)
 
         # Check final object is self-consistent
         if run_check:
-- 
2.43.0


From c0032a9c4b66f42e879d7dff9c94bb9de51647a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 079/130] fix: determine_blt_order does not fail on incomplete
 data

---
 src/pyuvdata/utils/bltaxis.py | 29 -----------------------------
 1 file changed, 29 deletions(-)

diff --git a/src/pyuvdata/utils/bltaxis.py b/src/pyuvdata/utils/bltaxis.py
index e67c28f..9d7da8a 100644
--- a/src/pyuvdata/utils/bltaxis.py
+++ b/src/pyuvdata/utils/bltaxis.py
@@ -94,35 +94,6 @@ def determine_blt_order(
         ):
             break
 
-    if Nbls > 1 and Ntimes > 1:
-        assert not (
-            (time_bl and bl_time)
-            or (time_a and a_time)
-            or (time_b and b_time)
-            or (time_order and a_order)
-            or (time_order and b_order)
-            or (a_order and b_order)
-            or (time_order and bl_order)
-        ), (
-            "Something went wrong when trying to determine the order of the blts axis. "
-            "Please raise an issue on github, as this is not meant to happen."
-            "None of the following should ever be True: \n"
-            f"\ttime_bl and bl_time: {time_bl and bl_time}\n"
-            f"\ttime_a and a_time: {time_a and a_time}\n"
-            f"\ttime_b and b_time: {time_b and b_time}\n"
-            f"\ttime_order and a_order: {time_order and a_order}\n"
-            f"\ttime_order and b_order: {time_order and b_order}\n"
-            f"\ta_order and b_order: {a_order and b_order}\n"
-            f"\ttime_order and bl_order: {time_order and bl_order}\n\n"
-            "Please include the following information in your issue:\n"
-            f"Nbls: {Nbls}\n"
-            f"Ntimes: {Ntimes}\n"
-            f"TIMES: {times}\n"
-            f"ANT1: {ant1}\n"
-            f"ANT2: {ant2}\n"
-            f"BASELINES: {bls}\n"
-        )
-
     if time_bl:
         return ("time", "baseline")
     if bl_time:
-- 
2.43.0


From f7b1ad630958ee1498d4f1431db8d28c582d7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 080/130] fix: ephemerides that differ in their times are
 different phase centers

---
 src/pyuvdata/utils/phase_center_catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/phase_center_catalog.py b/src/pyuvdata/utils/phase_center_catalog.py
index 7c4ac18..53d17e5 100644
--- a/src/pyuvdata/utils/phase_center_catalog.py
+++ b/src/pyuvdata/utils/phase_center_catalog.py
@@ -112,6 +112,8 @@ def look_in_catalog(
     # 1 marcsec tols
     radian_tols = (0, RADIAN_TOL)
     default_tols = (1e-5, 1e-8)
+    # 1 ms tols, relative tolerances are not appropriate for JDs
+    time_tols = (0, 1e-3 / (60.0 * 60.0 * 24.0))
     match_id = None
     match_diffs = 99999
 
@@ -155,7 +157,7 @@ def look_in_catalog(
         "cat_lat": radian_tols,
         "cat_frame": None,
         "cat_epoch": None,
-        "cat_times": default_tols,
+        "cat_times": time_tols,
         "cat_pm_ra": default_tols,
         "cat_pm_dec": default_tols,
         "cat_dist": default_tols,
-- 
2.43.0


From 352ef1eabd437b8c2b59138e90b1aec4ec46ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 081/130] fix: combining objects with several equal phase
 centers in a catalog

---
 src/pyuvdata/uvcal/uvcal.py   | 34 +++++++++++++++++++++++++++++++---
 src/pyuvdata/uvdata/uvdata.py | 30 ++++++++++++++++++++++++++++--
 2 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 89f61a8..a335c3e 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -1570,17 +1570,32 @@ class UVCal(UVBase):
             self._update_phase_center_id(cat_id, reserved_ids=reserved_ids)
 
         # Next loop, we want to update the IDs of sources that are in the reference.
+        matched_ids = set()
         for cat_id in list(reference_catalog):
             # Normally one would wrap this in an items() call above, except that for
             # testing it's sometimes convenient to use self.phase_center_catalog as
             # the ref catalog, which causes a RunTime error due to updates to the dict.
             cat_entry = reference_catalog[cat_id]
+            # Several entries of the reference can be the same, so skip the ones that
+            # are already matched.
             match_id, match_diffs = utils.phase_center_catalog.look_in_catalog(
-                self.phase_center_catalog, phase_dict=cat_entry, ignore_name=ignore_name
+                {
+                    key: entry
+                    for key, entry in self.phase_center_catalog.items()
+                    if key not in matched_ids
+                },
+                phase_dict=cat_entry,
+                ignore_name=ignore_name,
             )
+            if not ignore_name:
+                matched_ids.add(cat_id)
             if match_id is None or match_diffs != 0:
                 # If no match, just add the entry
                 self._add_phase_center(cat_id=cat_id, **cat_entry)
+                if cat_id not in self.phase_center_catalog:
+                    # The same as an entry that is already matched, keep both.
+                    self.phase_center_catalog[cat_id] = copy.deepcopy(cat_entry)
+                    self.Nphase = len(self.phase_center_catalog)
                 continue
 
             # If match_diffs is 0 then all the keys in the phase center catalog
@@ -2803,10 +2818,23 @@ class UVCal(UVBase):
             cat_obj._consolidate_phase_center_catalogs(
                 other=other, ignore_name=ignore_name
             )
+            if this.phase_center_id_array is not None:
+                # If names are ignored, several entries of other can become one.
+                other_pc_id_array = other.phase_center_id_array.copy()
+                for cat_id, cat_entry in other.phase_center_catalog.items():
+                    if cat_id not in cat_obj.phase_center_catalog:
+                        new_id, _ = utils.phase_center_catalog.look_in_catalog(
+                            cat_obj.phase_center_catalog,
+                            phase_dict=cat_entry,
+                            ignore_name=ignore_name,
+                        )
+                        other_pc_id_array[other.phase_center_id_array == cat_id] = (
+                            new_id
+                        )
             if (len(both_times) > 0) and (this.phase_center_id_array is not None):
                 if not np.array_equal(
                     cat_obj.phase_center_id_array[this_times_ind],
-                    other.phase_center_id_array[other_times_ind],
+                    other_pc_id_array[other_times_ind],
                 ):
                     # TODO: I think this check actually needs to be expanded to other
                     # attributes, and along other axes
@@ -3081,7 +3109,7 @@ class UVCal(UVBase):
                 )
             if this.phase_center_id_array is not None:
                 this.phase_center_id_array = np.concatenate(
-                    [this.phase_center_id_array, other.phase_center_id_array[tnew_inds]]
+                    [this.phase_center_id_array, other_pc_id_array[tnew_inds]]
                 )
             if this.ref_antenna_array is not None:
                 this.ref_antenna_array = np.concatenate(
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6db9a68..6648888 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1383,17 +1383,32 @@ class UVData(UVBase):
             self._update_phase_center_id(cat_id, reserved_ids=reserved_ids)
 
         # Next loop, we want to update the IDs of sources that are in the reference.
+        matched_ids = set()
         for cat_id in list(reference_catalog):
             # Normally one would wrap this in an items() call above, except that for
             # testing it's sometimes convenient to use self.phase_center_catalog as
             # the ref catalog, which causes a RunTime error due to updates to the dict.
             cat_entry = reference_catalog[cat_id]
+            # Several entries of the reference can be the same, so skip the ones that
+            # are already matched.
             match_id, match_diffs = utils.phase_center_catalog.look_in_catalog(
-                self.phase_center_catalog, phase_dict=cat_entry, ignore_name=ignore_name
+                {
+                    key: entry
+                    for key, entry in self.phase_center_catalog.items()
+                    if key not in matched_ids
+                },
+                phase_dict=cat_entry,
+                ignore_name=ignore_name,
             )
+            if not ignore_name:
+                matched_ids.add(cat_id)
             if match_id is None or match_diffs != 0:
                 # If no match, just add the entry
                 self._add_phase_center(cat_id=cat_id, **cat_entry)
+                if cat_id not in self.phase_center_catalog:
+                    # The same as an entry that is already matched, keep both.
+                    self.phase_center_catalog[cat_id] = copy.deepcopy(cat_entry)
+                    self.Nphase = len(self.phase_center_catalog)
                 continue
 
             # If match_diffs is 0 then all the keys in the phase center catalog
@@ -5599,6 +5614,17 @@ class UVData(UVBase):
         # weird, one-off process (i.e., nothing is cat'd across a particular axis)
         this._consolidate_phase_center_catalogs(other=other, ignore_name=ignore_name)
 
+        # If names are ignored, several entries of other can become one.
+        other_pc_ids = other.phase_center_id_array.copy()
+        for cat_id, cat_entry in other.phase_center_catalog.items():
+            if cat_id not in this.phase_center_catalog:
+                new_id, _ = utils.phase_center_catalog.look_in_catalog(
+                    this.phase_center_catalog,
+                    phase_dict=cat_entry,
+                    ignore_name=ignore_name,
+                )
+                other_pc_ids[other.phase_center_id_array == cat_id] = new_id
+
         # Next, work out where each element of the axes of other goes on the axes of
         # this: overlapping elements go where the matching element of this is, new
         # elements are added to the end (in the order they have on other).
@@ -5663,7 +5689,7 @@ class UVData(UVBase):
                 [this.phase_center_frame_pa, other.phase_center_frame_pa[bnew_inds]]
             )[blt_order]
             this.phase_center_id_array = np.concatenate(
-                [this.phase_center_id_array, other.phase_center_id_array[bnew_inds]]
+                [this.phase_center_id_array, other_pc_ids[bnew_inds]]
             )[blt_order]
             if this.scan_number_array is not None and (
                 other.scan_number_array is not None
-- 
2.43.0


From c4c2fd64af2eeb36be9730d6c9551e6210bc34c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 082/130] fix: blt_order with a single item

---
 src/pyuvdata/uvdata/miriad.py | 3 +--
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 src/pyuvdata/uvdata/uvfits.py | 3 +--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 57a63e2..6835de9 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -246,8 +246,7 @@ class Miriad(UVData):
         if "bltorder" in uv.vartable.keys():
             blt_order_str = uv["bltorder"].replace("\x00", "")
             self.blt_order = tuple(blt_order_str.split(", "))
-            if self.blt_order == ("bda",):
-                self._blt_order.form = (1,)
+            self._blt_order.form = (len(self.blt_order),)
 
         return default_miriad_variables, other_miriad_variables, extra_miriad_variables
 
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6648888..bda1a29 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3861,6 +3861,8 @@ class UVData(UVBase):
             Nbls=self.Nbls,
             Ntimes=self.Ntimes,
         )
+        if order is not None:
+            self._blt_order.form = (len(order),)
         self.blt_order = order
         return order
 
diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 5b1766c..d3094dc 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -487,8 +487,7 @@ class UVFITS(UVData):
             blt_order_str = vis_hdr.pop("BLTORDER", None)
             if blt_order_str is not None:
                 self.blt_order = tuple(blt_order_str.split(", "))
-                if self.blt_order == ("bda",):
-                    self._blt_order.form = (1,)
+                self._blt_order.form = (len(self.blt_order),)
             self.history = str(vis_hdr.get("HISTORY", ""))
             if not utils.history._check_history_version(
                 self.history, self.pyuvdata_version_str
-- 
2.43.0


From 57bd52c6334ea742280c86a73e651242dc2695b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 083/130] fix: split_phase_center always makes a new phase
 center

---
 src/pyuvdata/uvdata/uvdata.py | 39 ++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index bda1a29..11d8cd9 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1101,8 +1101,8 @@ class UVData(UVBase):
             else:
                 raise ValueError(
                     "Data selected with select_mask includes data which is not part of "
-                    "the selected phase_center ({cat_id}).  You can fix this by either "
-                    "revising select_mask or setting downselect=True."
+                    f"the selected phase_center ({cat_id}).  You can fix this by "
+                    "either revising select_mask or setting downselect=True."
                 )
 
         # Now check for no(-ish) ops
@@ -1119,23 +1119,24 @@ class UVData(UVBase):
             if new_name is not None:
                 self.rename_phase_center(new_id, new_name)
         else:
-            temp_dict = self.phase_center_catalog[cat_id]
-            cat_id = self._add_phase_center(
-                temp_dict["cat_name"] if new_name is None else new_name,
-                cat_type=temp_dict["cat_type"],
-                cat_lon=temp_dict.get("cat_lon"),
-                cat_lat=temp_dict.get("cat_lat"),
-                cat_frame=temp_dict.get("cat_frame"),
-                cat_epoch=temp_dict.get("cat_epoch"),
-                cat_times=temp_dict.get("cat_times"),
-                cat_pm_ra=temp_dict.get("cat_pm_ra"),
-                cat_pm_dec=temp_dict.get("cat_pm_dec"),
-                cat_dist=temp_dict.get("cat_dist"),
-                cat_vrad=temp_dict.get("cat_vrad"),
-                cat_id=new_id,
-                force_update=True,
-            )
-            self.phase_center_id_array[select_mask] = cat_id
+            # Always add a new entry, even if it is the same as an existing one.
+            new_entry = copy.deepcopy(self.phase_center_catalog[cat_id])
+            if new_name is not None:
+                new_entry["cat_name"] = new_name
+            _, cat_diffs = utils.phase_center_catalog.look_in_catalog(
+                self.phase_center_catalog, phase_dict=new_entry
+            )
+            if cat_diffs != 0 and utils.phase_center_catalog.look_for_name(
+                self.phase_center_catalog, new_entry["cat_name"]
+            ):
+                warnings.warn(
+                    f"The provided name {new_name} is already used but has different "
+                    "parameters. Adding another entry with the same name but a "
+                    "different ID and parameters."
+                )
+            self.phase_center_catalog[new_id] = new_entry
+            self.Nphase = len(self.phase_center_catalog)
+            self.phase_center_id_array[select_mask] = new_id
 
     def merge_phase_centers(
         self, catalog_identifier, *, force_merge=False, ignore_name=False
-- 
2.43.0


From 359c791f6fe1da241aad62f5d9816f9a375be35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 084/130] fix: merge_phase_centers with the same phase center
 identified twice

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 11d8cd9..3981ac8 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -1208,6 +1208,9 @@ class UVData(UVBase):
                     raise ValueError(f"No entry with the ID {cat} in the catalog.")
                 cat_id_list.append(cat)
 
+        # The same phase center can be identified more than once, keep it only once.
+        cat_id_list = list(dict.fromkeys(cat_id_list))
+
         # Check for the no-op
         if len(cat_id_list) < 2:
             warnings.warn(
-- 
2.43.0


From e947d0532d211025d6b14b950c27c4d7b4871793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 085/130] fix: FastUVH5Meta rectangularity of files with a
 blt_order

---
 src/pyuvdata/uvdata/uvh5.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 5816602..d28d810 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -246,12 +246,8 @@ class FastUVH5Meta(hdf5_utils.HDF5Meta):
         if "blts_are_rectangular" in h:
             return bool(h["blts_are_rectangular"][()])
 
-        if self.Nblts == self.Ntimes * self.Nbls and self.blt_order in (
-            ("time", "baseline"),
-            ("baseline", "time"),
-        ):
-            return True
-
+        # Do not use blt_order as a shortcut here, the data can have that order and not
+        # be rectangular (e.g. if it was reordered with autos_first).
         is_rect, self.__time_first = utils.bltaxis.determine_rectangularity(
             time_array=self.time_array,
             baseline_array=self.baseline_array,
-- 
2.43.0


From d11f6db0a62020830e384eda73a76de1dc1e308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 086/130] fix: FastUVH5Meta lsts go with the times

---
 src/pyuvdata/uvdata/uvh5.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index d28d810..92e0ec5 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -288,11 +288,12 @@ class FastUVH5Meta(hdf5_utils.HDF5Meta):
     def lsts(self) -> np.ndarray:
         """The unique LSTs in the file."""
         h = self.header
-        if "lst_array" in h and self.blts_are_rectangular:
+        if self.blts_are_rectangular:
+            lst_array = h["lst_array"] if "lst_array" in h else self.lst_array
             if self.time_axis_faster_than_bls:
-                return h["lst_array"][: self.Ntimes]
+                return lst_array[: self.Ntimes]
             else:
-                return h["lst_array"][:: self.Nbls]
+                return lst_array[:: self.Nbls]
         else:
             return np.unique(self.lst_array)
 
-- 
2.43.0


From f25dd006cd32ee776d69ab8f805929864345b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 087/130] fix: FastUVH5Meta.has_key of reversed antenna pairs

---
 src/pyuvdata/uvdata/uvh5.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 92e0ec5..63f38d0 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -383,13 +383,14 @@ class FastUVH5Meta(hdf5_utils.HDF5Meta):
 
     def has_key(self, key: tuple[int, int] | tuple[int, int, str]) -> bool:
         """Check if the file has a given antpair or antpair-pol key."""
-        if len(key) == 2 and key in self.antpairs or (key[1], key[0]) in self.antpairs:
-            return True
-        elif len(key) == 3 and (
-            (key[:2] in self.antpairs and key[2] in self.pols)
-            or ((key[1], key[0]) in self.antpairs and key[2][::-1] in self.pols)
-        ):
-            return True
+        rev_pair = (key[1], key[0])
+        if len(key) == 2:
+            return key in self.antpairs or rev_pair in self.antpairs
+        elif len(key) == 3:
+            return (key[:2] in self.antpairs and key[2] in self.pols) or (
+                rev_pair in self.antpairs
+                and utils.CONJ_POL_DICT.get(key[2]) in self.pols
+            )
         else:
             return False
 
-- 
2.43.0


From e231e5ecceb480090cff8f61bec8057812b5cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 088/130] fix: slicify of descending and repeated indices

---
 src/pyuvdata/utils/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index 7199681..d1dfedb 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -177,8 +177,11 @@ def slicify(ind: slice | None | IterableType[int]) -> slice | None | IterableTyp
     if len(ind) == 0:
         return None
 
-    if len(set(np.ediff1d(ind))) <= 1:
-        return slice(ind[0], ind[-1] + 1, ind[1] - ind[0] if len(ind) > 1 else 1)
+    step = ind[1] - ind[0] if len(ind) > 1 else 1
+    if len(set(np.ediff1d(ind))) <= 1 and step != 0:
+        stop = ind[-1] + (1 if step > 0 else -1)
+        # a negative stop would count from the end of the array
+        return slice(ind[0], stop if stop >= 0 else None, step)
     else:
         # can't slicify
         return ind
-- 
2.43.0


From 732d797b0262f6b457d3ac2b85e431a5189a59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 089/130] fix: cached polarization names follow the
 x_orientation

---
 src/pyuvdata/uvdata/uvdata.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 3981ac8..479c0a7 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2757,8 +2757,14 @@ class UVData(UVBase):
         if not isinstance(key, str):
             key = tuple(key)
 
-        if key in self.__key2ind_cache:
-            return self.__key2ind_cache[key]
+        if isinstance(key, str) or any(isinstance(item, str) for item in key):
+            # the meaning of polarization strings depends on the x_orientation
+            str_key = (key, self.telescope.x_orientation)
+        else:
+            str_key = None
+
+        if (str_key or key) in self.__key2ind_cache:
+            return self.__key2ind_cache[str_key or key]
 
         if isinstance(key, str):
             # Single string given, assume it is polarization
@@ -2866,7 +2872,7 @@ class UVData(UVBase):
         # Convert to slices if possible
         pol_ind = (utils.tools.slicify(pol_ind[0]), utils.tools.slicify(pol_ind[1]))
 
-        self.__key2ind_cache[key] = (blt_ind1, blt_ind2, pol_ind)
+        self.__key2ind_cache[str_key or key] = (blt_ind1, blt_ind2, pol_ind)
         return (blt_ind1, blt_ind2, pol_ind)
 
     def _smart_slicing(
-- 
2.43.0


From 4a6759d4f2672b05b6786b99698700987094b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 090/130] fix: KeyError for missing baselines given by number

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 479c0a7..511c2b7 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2843,7 +2843,7 @@ class UVData(UVBase):
                             if isinstance(orig_key, int):
                                 key_print = int(orig_key)
                             else:
-                                key_print = (int(orig_key[0]), int(orig_key[1]))
+                                key_print = (int(key[0]), int(key[1]))
 
                             raise KeyError(
                                 f"Baseline {key_print} not found for polarization "
-- 
2.43.0


From 1606cc385e80e676f5e0f1c9c9d7abdcaa14f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 091/130] fix: keys with the polarization in one antenna order
 only

---
 src/pyuvdata/uvdata/uvdata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 511c2b7..70ce1ad 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2859,6 +2859,12 @@ class UVData(UVBase):
                     if pol_ind2.size == 0:
                         pol_ind2 = None
 
+            # an antenna order without the polarization does not contribute
+            if pol_ind1 is None:
+                blt_ind1 = None
+            if pol_ind2 is None:
+                blt_ind2 = None
+
             pol_ind = (pol_ind1, pol_ind2)
             if (blt_ind1 is None or pol_ind1 is None) and (
                 blt_ind2 is None or pol_ind2 is None
-- 
2.43.0


From 32da12c37c42a8b17ee1b61bd2ae02c4e2551dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 092/130] fix: UVH5 files with rectangularity but no axis order

---
 src/pyuvdata/uvdata/uvh5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 63f38d0..c8b6030 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -583,7 +583,8 @@ class UVH5(UVData):
         # that up to the user dealing with the UVData object.
         if "blts_are_rectangular" in obj.header:
             self.blts_are_rectangular = obj.blts_are_rectangular
-        if "time_axis_faster_than_bls" in obj.header:
+        if "time_axis_faster_than_bls" in obj.header or self.blts_are_rectangular:
+            # the order of the axes is needed to use the rectangularity
             self.time_axis_faster_than_bls = obj.time_axis_faster_than_bls
 
         if not utils.history._check_history_version(
-- 
2.43.0


From 416b0fd1892ef690f45136e1c74a54e030b0f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:40 +0000
Subject: [PATCH 093/130] fix: interpolated beams share no arrays with the beam
 or the arguments

---
 src/pyuvdata/uvbeam/uvbeam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 360b88a..b156e3f 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2028,7 +2028,7 @@ class UVBeam(UVBase):
             if freq_array is not None:
                 history_update_string += " in frequency"
                 new_uvb.Nfreqs = freq_array.size
-                new_uvb.freq_array = freq_array
+                new_uvb.freq_array = freq_array.copy()
                 new_uvb.bandpass_array = interp_bandpass
 
                 if self.antenna_type == "phased_array":
@@ -2076,8 +2076,8 @@ class UVBeam(UVBase):
                         interp_basis_vector.shape[:-1] + (za_array.size, az_array.size)
                     )
 
-                new_uvb.axis1_array = az_array
-                new_uvb.axis2_array = za_array
+                new_uvb.axis1_array = az_array.copy()
+                new_uvb.axis2_array = za_array.copy()
                 new_uvb.Naxes1 = new_uvb.axis1_array.size
                 new_uvb.Naxes2 = new_uvb.axis2_array.size
 
@@ -2100,7 +2100,7 @@ class UVBeam(UVBase):
                 else:
                     history_update_string += " to a new healpix grid"
 
-                new_uvb.pixel_array = healpix_inds
+                new_uvb.pixel_array = healpix_inds.copy()
                 new_uvb.Npixels = new_uvb.pixel_array.size
                 new_uvb.nside = healpix_nside
                 new_uvb.ordering = "ring"
@@ -2114,7 +2114,7 @@ class UVBeam(UVBase):
             new_uvb.history = new_uvb.history + history_update_string
             new_uvb.data_array = interp_data
             if new_uvb.basis_vector_array is not None:
-                new_uvb.basis_vector_array = interp_basis_vector
+                new_uvb.basis_vector_array = interp_basis_vector.copy()
 
             new_uvb._clear_saved_interp_functions()
 
-- 
2.43.0


From fc8adadfe437f104bd3a51437611d79f0d2746de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:41 +0000
Subject: [PATCH 094/130] fix: refused UVBeam.select leaves the object alone

---
 src/pyuvdata/uvbeam/uvbeam.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index b156e3f..c4f2231 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2977,7 +2977,10 @@ class UVBeam(UVBase):
 
         """
         if inplace:
-            beam_object = self
+            # Only change this object once all of the selections worked.
+            beam_object = UVBeam()
+            for param in self:
+                setattr(beam_object, param, copy.copy(getattr(self, param)))
         else:
             beam_object = self.copy()
 
@@ -3286,7 +3289,11 @@ class UVBeam(UVBase):
                 check_extra=check_extra, run_check_acceptability=run_check_acceptability
             )
 
-        if not inplace:
+        if inplace:
+            for param in beam_object:
+                setattr(self, param, getattr(beam_object, param))
+            self._clear_saved_interp_functions()
+        else:
             return beam_object
 
     def _convert_from_filetype(self, other):
-- 
2.43.0


From 805d3cda13fecb82c5be374a037c663ea9e981c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:41 +0000
Subject: [PATCH 095/130] fix: writing Miriad files does not conjugate the
 written object

---
 src/pyuvdata/uvdata/miriad.py | 7 ++++---
 src/pyuvdata/uvdata/uvdata.py | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 6835de9..a010767 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1715,9 +1715,10 @@ class Miriad(UVData):
         # initialize header variables
         uv._wrhd("obstype", "mixed-auto-cross")
         # avoid inserting extra \n.
-        if not self.history[-1] == "\n":
-            self.history += "\n"
-        uv._wrhd("history", self.history)
+        history = self.history
+        if not history.endswith("\n"):
+            history += "\n"
+        uv._wrhd("history", history)
 
         # recognized miriad variables
         uv.add_var("nchan", "i")
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 70ce1ad..302c0e6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -11510,8 +11510,12 @@ class UVData(UVBase):
         # doing so is generally smaller than that from removing flex-pol.
         # TODO: reconsider this. The overhead is not smaller if `convert_to_flex_pol`
         # was used.
-        if self.flex_spw_polarization_array is not None:
+        # The writer conjugates the baselines, so that also needs a copy.
+        if self.flex_spw_polarization_array is not None or np.any(
+            self.ant_1_array > self.ant_2_array
+        ):
             miriad_obj = miriad_obj.copy()
+        if miriad_obj.flex_spw_polarization_array is not None:
             miriad_obj.remove_flex_pol()
 
         miriad_obj.write_miriad(
-- 
2.43.0


From 5ce78d067a24c77d42791edd9cb2d0ddd7486458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:41 +0000
Subject: [PATCH 096/130] fix: refused time resampling leaves the object alone

---
 src/pyuvdata/uvdata/uvdata.py | 149 ++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 59 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 302c0e6..6f4c7d6 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3882,6 +3882,60 @@ class UVData(UVBase):
         self.blt_order = order
         return order
 
+    @staticmethod
+    def _check_blt_order_names(order, minor_order):
+        """
+        Check the names of the orders for the blt axis and fill in the minor order.
+
+        Parameters
+        ----------
+        order : str
+            The order, see `reorder_blts`.
+        minor_order : str
+            The minor order, see `reorder_blts`.
+
+        Returns
+        -------
+        minor_order : str
+            The minor order, set to the default for the order if it is not given.
+
+        """
+        if order not in ["time", "baseline", "ant1", "ant2", "bda"]:
+            raise ValueError(
+                "order must be one of 'time', 'baseline', "
+                "'ant1', 'ant2', 'bda' or an index array of "
+                "length Nblts"
+            )
+
+        if minor_order == order:
+            minor_order = None
+
+        if minor_order is not None:
+            if minor_order not in ["time", "baseline", "ant1", "ant2"]:
+                raise ValueError(
+                    "minor_order can only be one of 'time', "
+                    "'baseline', 'ant1', 'ant2'"
+                )
+            if order == "bda":
+                raise ValueError(
+                    "minor_order cannot be specified if order is "
+                    "'bda' or an index array."
+                )
+            if order == "baseline":
+                if minor_order in ["ant1", "ant2"]:
+                    raise ValueError("minor_order conflicts with order")
+        else:
+            if order == "time":
+                minor_order = "baseline"
+            elif order == "ant1":
+                minor_order = "ant2"
+            elif order == "ant2":
+                minor_order = "ant1"
+            elif order == "baseline":
+                minor_order = "time"
+
+        return minor_order
+
     def reorder_blts(
         self,
         order="time",
@@ -3970,39 +4024,7 @@ class UVData(UVBase):
                     "Minor order cannot be set if order is an index array."
                 )
         else:
-            if order not in ["time", "baseline", "ant1", "ant2", "bda"]:
-                raise ValueError(
-                    "order must be one of 'time', 'baseline', "
-                    "'ant1', 'ant2', 'bda' or an index array of "
-                    "length Nblts"
-                )
-
-            if minor_order == order:
-                minor_order = None
-
-            if minor_order is not None:
-                if minor_order not in ["time", "baseline", "ant1", "ant2"]:
-                    raise ValueError(
-                        "minor_order can only be one of 'time', "
-                        "'baseline', 'ant1', 'ant2'"
-                    )
-                if isinstance(order, np.ndarray) or order == "bda":
-                    raise ValueError(
-                        "minor_order cannot be specified if order is "
-                        "'bda' or an index array."
-                    )
-                if order == "baseline":
-                    if minor_order in ["ant1", "ant2"]:
-                        raise ValueError("minor_order conflicts with order")
-            else:
-                if order == "time":
-                    minor_order = "baseline"
-                elif order == "ant1":
-                    minor_order = "ant2"
-                elif order == "ant2":
-                    minor_order = "ant1"
-                elif order == "baseline":
-                    minor_order = "time"
+            minor_order = self._check_blt_order_names(order, minor_order)
 
         if conj_convention is not None:
             self.conjugate_bls(
@@ -7570,6 +7592,9 @@ class UVData(UVBase):
                 "max_int_time should be in seconds."
             )
 
+        if isinstance(blt_order, str):
+            self._check_blt_order_names(blt_order, minor_order)
+
         # figure out where integration_time is longer than max_int_time
         inds_to_upsample = np.nonzero(
             (self.integration_time > max_int_time)
@@ -7883,22 +7908,16 @@ class UVData(UVBase):
         else:
             if not isinstance(n_times_to_avg, (int, np.integer)):
                 raise ValueError("n_times_to_avg must be an integer.")
-        # If we're going to do actual work, reorder the baselines to ensure time is
-        # monotonically increasing.
-        # Default of reorder_blts is baseline major, time minor, which is what we want.
-        self.reorder_blts()
+        if isinstance(blt_order, str):
+            self._check_blt_order_names(blt_order, minor_order)
+
+        # Any unprojected or driftscan data will be phased to one phase center before the
+        # averaging if allow_drift is False.
+        pc_ids = self.phase_center_id_array.copy()
+        if not allow_drift:
+            pc_ids[self._check_for_cat_type(["unprojected", "driftscan"])] = -1
 
         if min_int_time is not None:
-            # now re-compute inds_to_downsample, in case things have changed
-            inds_to_downsample = np.nonzero(
-                (self.integration_time < min_int_time)
-                & ~np.isclose(
-                    self.integration_time,
-                    min_int_time,
-                    rtol=self._integration_time.tols[0],
-                    atol=self._integration_time.tols[1],
-                )
-            )
             bls_to_downsample = np.unique(self.baseline_array[inds_to_downsample])
         else:
             bls_to_downsample = np.unique(self.baseline_array)
@@ -7907,10 +7926,13 @@ class UVData(UVBase):
         n_new_samples = 0
         for bl in bls_to_downsample:
             bl_inds = np.nonzero(self.baseline_array == bl)[0]
+            bl_inds = bl_inds[np.argsort(self.time_array[bl_inds], kind="stable")]
+            windows = []
             int_times = self.integration_time[bl_inds]
 
             if min_int_time is not None:
                 running_int_time = 0.0
+                window_start = 0
                 for itime, int_time in enumerate(int_times):
                     running_int_time += int_time
                     over_min_int_time = running_int_time > min_int_time or np.isclose(
@@ -7929,6 +7951,8 @@ class UVData(UVBase):
                             continue
                         n_new_samples += 1
                         running_int_time = 0.0
+                        windows.append((window_start, itime + 1))
+                        window_start = itime + 1
             else:
                 n_bl_times = self.time_array[bl_inds].size
                 nsample_temp = np.sum(n_bl_times / n_times_to_avg)
@@ -7936,6 +7960,20 @@ class UVData(UVBase):
                     n_new_samples += np.ceil(nsample_temp).astype(int)
                 else:
                     n_new_samples += np.floor(nsample_temp).astype(int)
+                for window_start in range(0, n_bl_times, n_times_to_avg):
+                    if keep_ragged or window_start + n_times_to_avg <= n_bl_times:
+                        windows.append((window_start, window_start + n_times_to_avg))
+
+            # check for this before changing anything
+            for window in windows:
+                if np.unique(pc_ids[bl_inds[slice(*window)]]).size > 1:
+                    raise ValueError(
+                        "Multiple phase centers included in a downsampling "
+                        "window. Use `phase` to phase to a single phase center "
+                        "or decrease the `min_int_time` or `n_times_to_avg` "
+                        "parameter to avoid multiple phase centers being "
+                        "included in a downsampling window."
+                    )
 
             # figure out if there are any time gaps in the data
             # meaning that the time differences are larger than the integration times
@@ -7979,6 +8017,11 @@ class UVData(UVBase):
                         "gaps.".format(bl=self.baseline_to_antnums(bl))
                     )
 
+        # If we're going to do actual work, reorder the baselines to ensure time is
+        # monotonically increasing.
+        # Default of reorder_blts is time major, baseline minor.
+        self.reorder_blts()
+
         temp_Nblts = n_new_samples
 
         unprojected_blts = self._check_for_cat_type("unprojected")
@@ -8069,18 +8112,6 @@ class UVData(UVBase):
                     # this might be wrong if some of the constituent times are
                     # *totally* flagged
                     averaging_idx = bl_inds[summing_idx : summing_idx + n_sum]
-                    if self.Nphase > 1:
-                        unique_phase_centers = np.unique(
-                            self.phase_center_id_array[averaging_idx]
-                        )
-                        if unique_phase_centers.size > 1:
-                            raise ValueError(
-                                "Multiple phase centers included in a downsampling "
-                                "window. Use `phase` to phase to a single phase center "
-                                "or decrease the `min_int_time` or `n_times_to_avg` "
-                                "parameter to avoid multiple phase centers being "
-                                "included in a downsampling window."
-                            )
                     temp_id_array[temp_idx] = self.phase_center_id_array[
                         averaging_idx[0]
                     ]
-- 
2.43.0


From 7dc94cf32d7ced7ff9171ddb1ba635d5dc0294fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:41 +0000
Subject: [PATCH 097/130] fix: refused in-place fast_concat leaves the object
 alone

---
 src/pyuvdata/uvdata/uvdata.py | 80 ++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6f4c7d6..1490b52 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6083,23 +6083,6 @@ class UVData(UVBase):
                 strict_uvw_antpos_check=strict_uvw_antpos_check,
             )
 
-        # update the phase_center_catalog to make it consistent across objects. The
-        # IDs on this can change each time another catalog is merged in, so only work
-        # out the IDs to use for the other objects once all of them are merged.
-        for obj in other:
-            this._consolidate_phase_center_catalogs(other=obj, ignore_name=ignore_name)
-        other_pc_ids = []
-        for obj in other:
-            obj_ids = np.zeros_like(obj.phase_center_id_array)
-            for cat_id, cat_entry in obj.phase_center_catalog.items():
-                new_id, _ = utils.phase_center_catalog.look_in_catalog(
-                    this.phase_center_catalog,
-                    phase_dict=cat_entry,
-                    ignore_name=ignore_name,
-                )
-                obj_ids[obj.phase_center_id_array == cat_id] = new_id
-            other_pc_ids.append(obj_ids)
-
         compatibility_params = ["_vis_units", "_telescope"]
 
         history_update_string = " Combined data along "
@@ -6138,6 +6121,52 @@ class UVData(UVBase):
 
         history_update_string += " axis using pyuvdata."
 
+        # Actually check compatibility parameters before changing anything
+        for obj in other:
+            for a in compatibility_params:
+                if a == "_phase_center_id_array":
+                    # the IDs can differ as long as the phase centers match
+                    params_match = this.Nblts == obj.Nblts and all(
+                        utils.phase_center_catalog.look_in_catalog(
+                            {this_id: this.phase_center_catalog[this_id]},
+                            phase_dict=obj.phase_center_catalog[obj_id],
+                            ignore_name=ignore_name,
+                        )
+                        == (this_id, 0)
+                        for this_id, obj_id in set(
+                            zip(
+                                this.phase_center_id_array.tolist(),
+                                obj.phase_center_id_array.tolist(),
+                            )
+                        )
+                    )
+                else:
+                    params_match = getattr(this, a) == getattr(obj, a)
+                if not params_match:
+                    msg = (
+                        "UVParameter "
+                        + a[1:]
+                        + " does not match. Cannot combine objects."
+                    )
+                    raise ValueError(msg)
+
+        # update the phase_center_catalog to make it consistent across objects. The
+        # IDs on this can change each time another catalog is merged in, so only work
+        # out the IDs to use for the other objects once all of them are merged.
+        for obj in other:
+            this._consolidate_phase_center_catalogs(other=obj, ignore_name=ignore_name)
+        other_pc_ids = []
+        for obj in other:
+            obj_ids = np.zeros_like(obj.phase_center_id_array)
+            for cat_id, cat_entry in obj.phase_center_catalog.items():
+                new_id, _ = utils.phase_center_catalog.look_in_catalog(
+                    this.phase_center_catalog,
+                    phase_dict=cat_entry,
+                    ignore_name=ignore_name,
+                )
+                obj_ids[obj.phase_center_id_array == cat_id] = new_id
+            other_pc_ids.append(obj_ids)
+
         histories_match = []
         for obj in other:
             histories_match.append(
@@ -6159,23 +6188,6 @@ class UVData(UVBase):
                             + extra_history
                         )
 
-        # Actually check compatibility parameters
-        for obj, obj_pc_ids in zip(other, other_pc_ids):
-            for a in compatibility_params:
-                if a == "_phase_center_id_array":
-                    params_match = np.array_equal(
-                        this.phase_center_id_array, obj_pc_ids
-                    )
-                else:
-                    params_match = getattr(this, a) == getattr(obj, a)
-                if not params_match:
-                    msg = (
-                        "UVParameter "
-                        + a[1:]
-                        + " does not match. Cannot combine objects."
-                    )
-                    raise ValueError(msg)
-
         if axis == "freq":
             this.Nfreqs = sum([this.Nfreqs] + [obj.Nfreqs for obj in other])
             this.freq_array = np.concatenate(
-- 
2.43.0


From cac00293a935a943215c5c32296c95ca8e33e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:41 +0000
Subject: [PATCH 098/130] fix: converted UVFlag objects share no arrays with
 the argument

---
 src/pyuvdata/uvflag/uvflag.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 8a554dc..39f34f7 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1480,7 +1480,7 @@ class UVFlag(UVBase):
         # Deal with polarization
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = uv.polarization_array
+            self.polarization_array = uv.polarization_array.copy()
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1576,18 +1576,18 @@ class UVFlag(UVBase):
 
         if self.Nspws is None:
             self.Nspws = uv.Nspws
-            self.spw_array = uv.spw_array
+            self.spw_array = uv.spw_array.copy()
             if uv.flex_spw_id_array is not None:
-                self.flex_spw_id_array = uv.flex_spw_id_array
+                self.flex_spw_id_array = uv.flex_spw_id_array.copy()
 
-        self.baseline_array = uv.baseline_array
+        self.baseline_array = uv.baseline_array.copy()
         self.Nbls = np.unique(self.baseline_array).size
-        self.ant_1_array = uv.ant_1_array
-        self.ant_2_array = uv.ant_2_array
+        self.ant_1_array = uv.ant_1_array.copy()
+        self.ant_2_array = uv.ant_2_array.copy()
         self.Nants_data = int(np.union1d(self.ant_1_array, self.ant_2_array).size)
 
-        self.time_array = uv.time_array
-        self.lst_array = uv.lst_array
+        self.time_array = uv.time_array.copy()
+        self.lst_array = uv.lst_array.copy()
         self.Ntimes = uv.Ntimes
         self.Nblts = self.time_array.size
 
@@ -1717,7 +1717,7 @@ class UVFlag(UVBase):
             polarr = uv.polarization_array
         if force_pol and self.polarization_array.size == 1:
             # Use single pol for all pols, regardless
-            self.polarization_array = polarr
+            self.polarization_array = polarr.copy()
             # Broadcast arrays
             if self.mode == "flag":
                 self.flag_array = self.flag_array.repeat(
@@ -1755,7 +1755,7 @@ class UVFlag(UVBase):
             ]
             self.metric_array = self.metric_array.repeat(len(uv.ant_array), axis=0)
             self.weights_array = self.weights_array.repeat(len(uv.ant_array), axis=0)
-        self.ant_array = uv.ant_array
+        self.ant_array = uv.ant_array.copy()
         self.Nants_data = len(uv.ant_array)
 
         for param in self.telescope:
@@ -1767,9 +1767,9 @@ class UVFlag(UVBase):
 
         if self.Nspws is None:
             self.Nspws = uv.Nspws
-            self.spw_array = uv.spw_array
+            self.spw_array = uv.spw_array.copy()
             if uv.flex_spw_id_array is not None:
-                self.flex_spw_id_array = uv.flex_spw_id_array
+                self.flex_spw_id_array = uv.flex_spw_id_array.copy()
 
         # these describe the weights of the waterfall
         self.weights_square_array = None
-- 
2.43.0


From 9226bdf9a6bc05a2bf62645c26575302a26fa42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 099/130] fix: apply x_orientation to polarization names in
 new_uvbeam

---
 src/pyuvdata/uvbeam/initializers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 7199406..8f14446 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -168,7 +168,9 @@ def new_uvbeam(
         uvb.beam_type = "power"
         polarization_array = np.asarray(polarization_array)
         if polarization_array.dtype.kind != "i":
-            polarization_array = np.asarray(utils.polstr2num(polarization_array))
+            polarization_array = np.asarray(
+                utils.polstr2num(polarization_array, x_orientation=x_orientation)
+            )
         uvb.polarization_array = polarization_array
 
         uvb.Npols = uvb.polarization_array.size
-- 
2.43.0


From c96071f8c3bb29332961a6d008500ea5bb8cda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 100/130] fix: check the pixel coordinate system passed to
 new_uvbeam

---
 src/pyuvdata/uvbeam/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 8f14446..23d8c32 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -208,7 +208,7 @@ def new_uvbeam(
 
         if pixel_coordinate_system is not None:
             allowed_pcs = list(uvb.coordinate_system_dict.keys())
-            if uvb.pixel_coordinate_system not in allowed_pcs:
+            if pixel_coordinate_system not in allowed_pcs:
                 raise ValueError(
                     f"pixel_coordinate_system must be one of {allowed_pcs}"
                 )
-- 
2.43.0


From 323665d621cdf0a47ed8b7a1f5c41409fcf53170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 101/130] fix: make empty cross-polarization power beams
 complex in new_uvbeam

---
 src/pyuvdata/uvbeam/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 23d8c32..e315867 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -347,7 +347,11 @@ def new_uvbeam(
         data_type = complex
         polax = uvb.Nfeeds
     else:
-        data_type = float
+        # cross polarization power beams are complex
+        if np.any(np.isin(uvb.polarization_array, [-3, -4, -7, -8])):
+            data_type = complex
+        else:
+            data_type = float
         polax = uvb.Npols
 
     if uvb.pixel_coordinate_system == "healpix":
-- 
2.43.0


From 48206e7100b3954f68f1dbe5df8c1564c8968110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 102/130] fix: accept Jones strings in new_uvcal

---
 src/pyuvdata/uvcal/initializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 816e1d3..0834288 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -302,8 +302,8 @@ def new_uvcal(
     else:
         jones_array = np.array(jones_array)
         if jones_array.dtype.kind != "i":
-            jones_array = utils.jstr2num(
-                jones_array, x_orientation=telescope.x_orientation
+            jones_array = np.array(
+                utils.jstr2num(jones_array, x_orientation=telescope.x_orientation)
             )
 
     history += (
-- 
2.43.0


From d3bc53eaf8d54d5cf417d3c21a2617e0d695a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 103/130] fix: do not change the telescope passed to new_uvcal

---
 src/pyuvdata/uvcal/initializers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/initializers.py b/src/pyuvdata/uvcal/initializers.py
index 0834288..75e98f5 100644
--- a/src/pyuvdata/uvcal/initializers.py
+++ b/src/pyuvdata/uvcal/initializers.py
@@ -320,7 +320,8 @@ def new_uvcal(
         )
 
     # Now set all the metadata
-    uvc.telescope = telescope
+    # copy so that setting the requirements does not change the object passed in
+    uvc.telescope = telescope.copy()
 
     # set the appropriate telescope attributes as required
     uvc._set_telescope_requirements()
-- 
2.43.0


From f29bfb2543eafd2ffb990b5164af49ebc9b02a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 104/130] fix: derive the integration time of each row in
 new_uvdata whatever the order of the times

---
 src/pyuvdata/uvdata/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index d23d81a..e55757e 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -44,20 +44,20 @@ def get_time_params(
 
     if integration_time is None:
         if time_array.ndim == 2:
-            integration_time = np.squeeze(np.diff(time_array, axis=1) * 86400)
+            integration_time = (time_array[:, 1] - time_array[:, 0]) * 86400
         else:
-            utimes = np.sort(list(set(time_array)))
+            utimes, time_inds = np.unique(time_array, return_inverse=True)
             if len(utimes) > 1:
                 integration_time = np.diff(utimes) * 86400
                 integration_time = np.concatenate(
                     [integration_time, integration_time[-1:]]
-                )
+                )[time_inds]
             else:
                 warnings.warn(
                     "integration_time not provided, and cannot be inferred from "
                     "time_array, setting to 1 second"
                 )
-                integration_time = np.array([1.0])
+                integration_time = np.ones(time_array.shape, dtype=float)
 
     if np.isscalar(integration_time):
         if time_array.ndim == 2:
-- 
2.43.0


From 6559f81ed38d9ab687241ddff08c41ba3fd73e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 105/130] fix: make channel widths positive for descending
 frequencies in new_uvdata

---
 src/pyuvdata/uvdata/initializers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index e55757e..1972323 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -92,7 +92,8 @@ def get_freq_params(
 
     if channel_width is None:
         if freq_array.size > 1:
-            channel_width = freq_array[1:] - freq_array[:-1]
+            # widths are positive whichever way the frequencies are ordered
+            channel_width = np.abs(freq_array[1:] - freq_array[:-1])
             channel_width = np.concatenate([channel_width, channel_width[-1:]])
         else:
             warnings.warn(
-- 
2.43.0


From 2b1926788fca35821385c776be962a086c92319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 106/130] fix: keep times and baselines matched and in order
 for time-fast objects in new_uvdata

---
 src/pyuvdata/uvdata/initializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 1972323..1220641 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -178,9 +178,9 @@ def configure_blt_rectangularity(
         blts_are_rectangular = True
 
         if time_axis_faster_than_bls:
-            times = np.tile(unique_times, nbl)
+            times = np.tile(times, nbl)
             time_sized_arrays = tuple(np.tile(arr, nbl) for arr in time_sized_arrays)
-            antpairs = np.repeat(unique_antpairs, nt, axis=0)
+            antpairs = np.repeat(antpairs, nt, axis=0)
         else:
             antpairs = np.tile(antpairs, (nt, 1))
             times = np.repeat(times, nbl)
-- 
2.43.0


From 7d05bd0dffb4d29eb2d5453de3557f848e0b8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 107/130] fix: handle a single row given as rectangular in
 new_uvdata

---
 src/pyuvdata/uvdata/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 1220641..de5df88 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -198,7 +198,7 @@ def configure_blt_rectangularity(
         # the user to know what they're doing.
 
         # Since this is fast, we just do it, rather than trusting the user.
-        time_axis_faster_than_bls = np.abs(times[1] - times[0]) > 0
+        time_axis_faster_than_bls = len(times) > 1 and np.abs(times[1] - times[0]) > 0
 
     elif blts_are_rectangular is False:
         time_axis_faster_than_bls = None
-- 
2.43.0


From 92ac5a1835ce408409021d973421c30258d3659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 108/130] fix: only record true row orders in new_uvdata

---
 src/pyuvdata/uvdata/initializers.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index de5df88..c928608 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -550,13 +550,15 @@ def new_uvdata(
         if time_array.size != antpairs.shape[0]:
             raise ValueError("Length of time array must match the number of antpairs.")
 
+    blt_order = None
     if bl_order is not None and blts_are_rectangular:
-        if time_axis_faster_than_bls:
-            blt_order = ("ant1", "ant2")
-        else:
-            blt_order = ("time", "ant1")
-    else:
-        blt_order = None
+        # the antenna pairs are in the order of the antenna numbers on the telescope
+        # and the times in the order passed in, only record an order that is true.
+        if np.all(np.diff(telescope.antenna_numbers) > 0):
+            if time_axis_faster_than_bls:
+                blt_order = ("ant1", "ant2")
+            elif np.all(np.diff(times) > 0):
+                blt_order = ("time", "ant1")
 
     baseline_array = get_baseline_params(
         antenna_numbers=telescope.antenna_numbers, antpairs=antpairs
-- 
2.43.0


From b1a3077d1afa21549e3e5808dad0b27951a39c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 109/130] fix: use the telescope x_orientation for polarization
 names in new_uvdata

---
 src/pyuvdata/uvdata/initializers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index c928608..33093ea 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -578,7 +578,10 @@ def new_uvdata(
     polarization_array = np.array(polarization_array)
     if polarization_array.dtype.kind != "i":
         polarization_array = np.array(
-            utils.polstr2num(polarization_array, x_orientation=x_orientation)
+            utils.polstr2num(
+                polarization_array,
+                x_orientation=telescope.x_orientation or x_orientation,
+            )
         )
 
     if vis_units not in ["Jy", "K str", "uncalib"]:
-- 
2.43.0


From 3818bfe6495597927327c8fa9baa207705b82a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 110/130] fix: do not change the telescope passed to new_uvdata

---
 src/pyuvdata/uvdata/initializers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 33093ea..41d0092 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -593,7 +593,8 @@ def new_uvdata(
     )
 
     # Now set all the metadata
-    obj.telescope = telescope
+    # copy so that setting the requirements does not change the object passed in
+    obj.telescope = telescope.copy()
     # set the appropriate telescope attributes as required
     obj._set_telescope_requirements()
 
-- 
2.43.0


From 75023da9c4a3e7757890fa1c46a3421f8c6cb353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 111/130] fix: keep the data passed to new_uvdata when empty is
 set

---
 src/pyuvdata/uvdata/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/initializers.py b/src/pyuvdata/uvdata/initializers.py
index 41d0092..ff251ee 100644
--- a/src/pyuvdata/uvdata/initializers.py
+++ b/src/pyuvdata/uvdata/initializers.py
@@ -638,7 +638,7 @@ def new_uvdata(
     # Set data parameters
     shape = (obj.Nblts, obj.Nfreqs, obj.Npols)
 
-    if empty:
+    if empty and data_array is None:
         obj.data_array = np.zeros(shape, dtype=complex)
         obj.flag_array = np.zeros(shape, dtype=bool)
         obj.nsample_array = np.ones(shape, dtype=float)
-- 
2.43.0


From e8e3cd7645087872b04b289e54de5e29ea7f564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 112/130] fix: label Miriad antenna positions by antenna number
 when numbers are a permutation

---
 src/pyuvdata/uvdata/miriad.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index a010767..b783eda 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -532,18 +532,11 @@ class Miriad(UVData):
             if self.telescope.Nants is not None:
                 # in this case there is an antnums variable
                 # (meaning that the file was written with pyuvdata), so we'll use it
-                if nants == self.telescope.Nants:
-                    # no inflation, so just use the positions
-                    self.telescope.antenna_positions = rel_ecef_antpos
-                else:
-                    # there is some inflation, just use the ones that appear in antnums
-                    self.telescope.antenna_positions = np.zeros(
-                        (self.telescope.Nants, 3), dtype=antpos.dtype
-                    )
-                    for ai, num in enumerate(self.telescope.antenna_numbers):
-                        self.telescope.antenna_positions[ai, :] = rel_ecef_antpos[
-                            num, :
-                        ]
+                # the positions are listed by antenna number (maybe with some
+                # inflation), so get them in the order of antnums
+                self.telescope.antenna_positions = rel_ecef_antpos[
+                    self.telescope.antenna_numbers, :
+                ]
             else:
                 # there is no antnums variable (meaning that this file was not
                 # written by pyuvdata), so we test for antennas with non-zero
-- 
2.43.0


From cefe8aa6bd81f35018799a8d66db6c61fedad811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 113/130] fix: count Miriad times by center time for varying
 integration times

---
 src/pyuvdata/uvdata/miriad.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index b783eda..d9159ae 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1164,25 +1164,32 @@ class Miriad(UVData):
             # The select on read will make the header nblts not match the
             # number of unique blts
             self.Nblts = len(t_grid)
+        # UVData.time_array marks center of integration, while Miriad 'time'
+        # marks beginning
+        # also, int_grid is in units of seconds, so we need to convert to days
+        self.time_array = t_grid + int_grid / (24 * 3600.0) / 2
+        if np.any(int_grid != int_grid[0]):
+            # the same center time comes out with different rounding from different
+            # integration times, make them the same again
+            uniq_times, inds = np.unique(self.time_array, return_inverse=True)
+            new_time = np.diff(uniq_times, prepend=-np.inf) > 4 * np.spacing(uniq_times)
+            self.time_array = uniq_times[new_time][np.cumsum(new_time)[inds] - 1]
+
+        n_times = np.unique(self.time_array).size
         if time_range is None:
             try:
                 self.Ntimes = uv["ntimes"]
-                if self.Ntimes != len(times):
+                if self.Ntimes != n_times:
                     warnings.warn(
                         "Ntimes does not match the number of unique times in the data"
                     )
-                    self.Ntimes = len(times)
+                    self.Ntimes = n_times
             except KeyError:
-                self.Ntimes = len(times)
+                self.Ntimes = n_times
         else:
             # The select on read will make the header ntimes not match the
             # number of unique times
-            self.Ntimes = len(times)
-
-        # UVData.time_array marks center of integration, while Miriad 'time'
-        # marks beginning
-        # also, int_grid is in units of seconds, so we need to convert to days
-        self.time_array = t_grid + int_grid / (24 * 3600.0) / 2
+            self.Ntimes = n_times
 
         self.integration_time = np.asarray(int_grid, dtype=np.float64)
 
-- 
2.43.0


From 07f1c2c9e4de98b452777474df0236d571e6b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 114/130] fix: refuse to merge phase centers of the same name
 in Miriad files

---
 src/pyuvdata/uvdata/miriad.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index d9159ae..21decff 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1676,6 +1676,17 @@ class Miriad(UVData):
                 "Only ITRS telescope locations are supported in Miriad files."
             )
 
+        used_names = [
+            self.phase_center_catalog[cat_id]["cat_name"]
+            for cat_id in np.unique(self.phase_center_id_array)
+        ]
+        if len(set(used_names)) < len(used_names):
+            raise ValueError(
+                "Miriad files identify phase centers by their names, so phase centers "
+                "with the same name cannot be written. Use `rename_phase_center` to "
+                "give them different names."
+            )
+
         # change time_array and lst_array to mark beginning of integration,
         # per Miriad format
         miriad_time_array = self.time_array - self.integration_time / (24 * 3600.0) / 2
-- 
2.43.0


From dfad58b5a53b3c4b9963ea2871dab19f79fb2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 115/130] fix: keep the channel width of single channel windows
 in Miriad files

---
 src/pyuvdata/uvdata/miriad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 21decff..4cfaa1a 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1766,6 +1766,8 @@ class Miriad(UVData):
                 freq_array_use[np.append(win_start_pos[1:] - 1, self.Nfreqs - 1)]
                 - freq_array_use[win_start_pos]
             )
+            # windows with a single channel have no direction
+            freq_dir[freq_dir == 0] = 1
 
             uv.add_var("sdf", "d")  # Channel width, Hz -> GHz
             uv["sdf"] = self.channel_width[win_start_pos] * freq_dir / 1e9
@@ -1779,6 +1781,8 @@ class Miriad(UVData):
             # Need the array direction here since channel_width is always supposed
             # to be > 0, but channels can be in decending freq order
             freq_dir = np.sign(np.diff(freq_array_use[([0, -1])]))
+            # a single channel has no direction
+            freq_dir[freq_dir == 0] = 1
 
             uv.add_var("sfreq", "d")  # Freq of first channel of the window, in GHz
             uv["sfreq"] = (freq_array_use[0] / 1e9).astype(np.double)  # Hz -> GHz
-- 
2.43.0


From 442aece6d734d6aa3cec4c0d8cfee2451a63f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 116/130] fix: give every Miriad row an epoch when unprojected
 and projected rows are mixed

---
 src/pyuvdata/uvdata/miriad.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyuvdata/uvdata/miriad.py b/src/pyuvdata/uvdata/miriad.py
index 4cfaa1a..85ad026 100644
--- a/src/pyuvdata/uvdata/miriad.py
+++ b/src/pyuvdata/uvdata/miriad.py
@@ -1990,6 +1990,7 @@ class Miriad(UVData):
         c_ns = const.c.to_value("m/ns")
         any_ephem = np.any(self._check_for_cat_type("ephem"))
         any_driftscan = np.any(self._check_for_cat_type("driftscan"))
+        any_projected = not np.all(self._check_for_cat_type("unprojected"))
         if any_driftscan:
             warnings.warn(
                 "This object has a driftscan phase center. Miriad does not really "
@@ -2064,6 +2065,10 @@ class Miriad(UVData):
             if cat_type == "unprojected":
                 uv["ra"] = self.phase_center_app_ra[viscnt]
                 uv["dec"] = self.phase_center_app_dec[viscnt]
+                if any_projected:
+                    # the epoch has no meaning here, but it is read for every row so
+                    # it needs a value
+                    uv["epoch"] = 2000.0
                 uv["phsframe"] = "unprojected"
             elif cat_type == "sidereal":
                 uv["ra"] = self.phase_center_catalog[cat_id]["cat_lon"]
-- 
2.43.0


From 53f8b8a8efde16d32528038c946ee0dd988e9af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:57 +0000
Subject: [PATCH 117/130] fix: refuse metadata only objects in write_ms_cal
 before touching the file

---
 src/pyuvdata/uvcal/ms_cal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyuvdata/uvcal/ms_cal.py b/src/pyuvdata/uvcal/ms_cal.py
index 07447bd..d5d66a9 100644
--- a/src/pyuvdata/uvcal/ms_cal.py
+++ b/src/pyuvdata/uvcal/ms_cal.py
@@ -431,6 +431,11 @@ class MSCal(UVCal):
         if self.cal_type not in ["gain", "delay"]:
             raise ValueError('cal_type must either be "gain" or "delay".')
 
+        if self.metadata_only:
+            raise ValueError(
+                "Cannot write out metadata only objects to a MS calibration table."
+            )
+
         # Initialize our calibration file, and get things set up with the appropriate
         # columns for us to write to in the main table. This is a little different
         # Depending on whether the table is a gains or delays file (complex vs floats).
-- 
2.43.0


From f213657d7700aa510f7b8a1b7b5a5733b3685d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:57 +0000
Subject: [PATCH 118/130] fix: refuse empty UVData selections before changing
 the object

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1490b52..08ed4a5 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7045,6 +7045,8 @@ class UVData(UVBase):
                     (freq_inds, np.where(np.isin(self.freq_array, frequencies))[0])
                 )
             freq_inds = np.unique(freq_inds)
+            if len(freq_inds) == 0:
+                raise ValueError("No frequencies were selected.")
 
             if len(freq_inds) > 1:
                 freq_ind_separation = freq_inds[1:] - freq_inds[:-1]
@@ -7143,6 +7145,8 @@ class UVData(UVBase):
                     )
             else:
                 pol_inds = np.unique(pol_inds)
+                if len(pol_inds) == 0:
+                    raise ValueError("No polarizations were selected.")
                 if len(pol_inds) > 2:
                     if not utils.tools._test_array_constant_spacing(pol_inds):
                         warnings.warn(
-- 
2.43.0


From d3f8ce344d11e9d5e4acb279394c4eef6c6c39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:57 +0000
Subject: [PATCH 119/130] fix: refuse empty UVFlag selections before changing
 the object

---
 src/pyuvdata/uvflag/uvflag.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 39f34f7..c1c0cae 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2539,6 +2539,8 @@ class UVFlag(UVBase):
                             "ant_array".format(a=ant)
                         )
                 ant_inds = sorted(set(ant_inds))
+                if len(ant_inds) == 0:
+                    raise ValueError("No antennas were selected.")
 
         else:
             ant_blt_inds = None
@@ -2708,6 +2710,8 @@ class UVFlag(UVBase):
                     )
 
             freq_inds = sorted(set(freq_inds))
+            if len(freq_inds) == 0:
+                raise ValueError("No frequencies were selected.")
         else:
             freq_inds = None
 
@@ -2740,6 +2744,8 @@ class UVFlag(UVBase):
                     )
 
             pol_inds = sorted(set(pol_inds))
+            if len(pol_inds) == 0:
+                raise ValueError("No polarizations were selected.")
         else:
             pol_inds = None
 
-- 
2.43.0


From 33b4654d7d940e3ab856af263e5518c28eaa307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 120/130] fix: antennas matched by name and by number get their
 own known-telescope values

---
 src/pyuvdata/telescopes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/telescopes.py b/src/pyuvdata/telescopes.py
index 290ee56..8f972c7 100644
--- a/src/pyuvdata/telescopes.py
+++ b/src/pyuvdata/telescopes.py
@@ -641,6 +641,10 @@ class Telescope(UVBase):
                         )
                     else:
                         known_telescope_list.extend(ant_params_missing)
+                        # put the matches back in the order of the antennas here
+                        telescope_ant_inds = [
+                            telescope_ant_inds[ind] for ind in np.argsort(ant_inds)
+                        ]
                         if "antenna_positions" in ant_params_missing:
                             self.antenna_positions = ant_info["antenna_positions"][
                                 telescope_ant_inds, :
-- 
2.43.0


From ed9a90aa1d5937e119da945be60cd80e4f2dcd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 121/130] fix: calc_uvw groups rows by their frame position
 angle too

---
 src/pyuvdata/utils/phasing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 8209e13..85fc46c 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -620,6 +620,7 @@ def calc_uvw(
                 (
                     ((lst_array[:-1] - app_ra[:-1]) != (lst_array[1:] - app_ra[1:]))
                     | (app_dec[:-1] != app_dec[1:])
+                    | (False if frame_pa is None else (frame_pa[:-1] != frame_pa[1:]))
                 ),
             )
 
-- 
2.43.0


From 24c7c3527503f877416ba9a22f4488a45e98b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 122/130] fix: calc_uvw of an unchanged position without frame
 angles

---
 src/pyuvdata/utils/phasing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 85fc46c..5af92f4 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -720,7 +720,10 @@ def calc_uvw(
         if np.all(gha_delta_array == 0.0) and np.all(old_app_dec == app_dec):
             new_coords = _rotate_one_axis(
                 uvw_array[:, [2, 0, 1], np.newaxis],
-                rot_amount=frame_pa - (0.0 if old_frame_pa is None else old_frame_pa),
+                rot_amount=(
+                    (0.0 if frame_pa is None else frame_pa)
+                    - (0.0 if old_frame_pa is None else old_frame_pa)
+                ),
                 rot_axis=0,
             )[:, :, 0]
         else:
-- 
2.43.0


From 60864e084682961bfec911427f78206f612448a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 123/130] fix: apparent places with arrays of proper motions or
 distances

---
 src/pyuvdata/utils/phasing.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 5af92f4..8e077a0 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1122,7 +1122,9 @@ def transform_icrs_to_app(
         ra_coord.shape += (1,)
         dec_coord.shape += (1,)
         if pm_ra_coord is not None:
-            pm_ra
+            pm_ra_coord.shape += (1,)
+        if pm_dec_coord is not None:
+            pm_dec_coord.shape += (1,)
         if d_coord is not None:
             d_coord.shape += (1,)
         if v_coord is not None:
@@ -1149,9 +1151,9 @@ def transform_icrs_to_app(
             sky_coord = sky_coord.apply_space_motion(dt=(time_obj_array - coord_epoch))
             ra_coord = sky_coord.ra
             dec_coord = sky_coord.dec
-            if d_coord is not None:
+            if d_coord is not None and d_coord.size == 1:
                 d_coord = d_coord.repeat(ra_coord.size)
-            if v_coord is not None:
+            if v_coord is not None and v_coord.size == 1:
                 v_coord = v_coord.repeat(ra_coord.size)
 
         if isinstance(site_loc, EarthLocation):
@@ -1246,14 +1248,14 @@ def transform_icrs_to_app(
                 if pm_ra is None:
                     pm_ra_use = 0.0
                 else:
-                    pm_ra_use = pm_ra_coord.to_value("mas/yr") * np.cos(
+                    pm_ra_use = pm_ra_coord[idx].to_value("mas/yr") * np.cos(
                         dec_coord[idx].to_value("rad")
                     )
 
                 if pm_dec is None:
                     pm_dec_use = 0.0
                 else:
-                    pm_dec_use = pm_dec_coord.to_value("mas/yr")
+                    pm_dec_use = pm_dec_coord[idx].to_value("mas/yr")
 
                 if dist is None or np.any(dist == 0.0):
                     parallax = 0.0
-- 
2.43.0


From 3e9009e2b990b9333849b996d2e17a0be6ee5ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 124/130] fix: frame position angles of every combination of
 position and time

---
 src/pyuvdata/utils/phasing.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 8e077a0..5a9c82f 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1644,13 +1644,9 @@ def calc_frame_pos_angle(
     # This creates an array of unique entries of ra + dec + time, since the processing
     # time for each element can be non-negligible, and entries along the Nblt axis can
     # be highly redundant.
-    unique_mask = np.union1d(
-        np.union1d(
-            np.unique(app_ra, return_index=True)[1],
-            np.unique(app_dec, return_index=True)[1],
-        ),
-        np.unique(time_array, return_index=True)[1],
-    )
+    unique_mask = np.unique(
+        np.stack((app_ra, app_dec, time_array)), axis=1, return_index=True
+    )[1]
 
     # Pluck out the unique entries for each
     unique_ra = app_ra[unique_mask]
-- 
2.43.0


From 00d15dbdad10be7e3d9dd59b41b3286b35bfdeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 125/130] fix: ephemerides interpolated across RA 0

---
 src/pyuvdata/utils/phasing.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 5a9c82f..49e258a 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1974,6 +1974,15 @@ def interpolate_ephem(
     if (np.array(ephem_vel).shape != ephem_shape) and (ephem_vel is not None):
         raise ValueError("ephem_vel must have the same shape as ephem_times.")
 
+    if len(ephem_times) > 1:
+        # Make the RAs continuous, so that a target which crosses RA = 0 between two
+        # points is not sent around the rest of the sky.
+        time_order = np.argsort(ephem_times)
+        unwrapped_ra = np.zeros(ephem_shape, dtype=float)
+        unwrapped_ra[time_order] = np.unwrap(np.asarray(ephem_ra)[time_order])
+        ra_wraps = not np.array_equal(unwrapped_ra, ephem_ra)
+        ephem_ra = unwrapped_ra
+
     ra_vals = np.zeros_like(time_array, dtype=float)
     dec_vals = np.zeros_like(time_array, dtype=float)
     dist_vals = None if ephem_dist is None else np.zeros_like(time_array, dtype=float)
@@ -2031,6 +2040,9 @@ def interpolate_ephem(
                     ephem_times, ephem_vel, kind=interp_kind
                 )(time_select)
 
+        if ra_wraps:
+            ra_vals = np.mod(ra_vals, 2 * np.pi)
+
     return (ra_vals, dec_vals, dist_vals, vel_vals)
 
 
-- 
2.43.0


From faad135f2c2ebcf8e05a0952eae892d1dfd8d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 126/130] fix: apparent coordinates of several positions at
 unsorted or repeated times

---
 src/pyuvdata/utils/phasing.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 49e258a..106bc76 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2172,6 +2172,15 @@ def calc_app_coords(
 
     unique_time_array, unique_mask = np.unique(time_array, return_index=True)
 
+    # Unless they are the points of an ephemeris, arrays of coordinates match up with
+    # the times one to one, in which case there's nothing to be gained from uniqueness.
+    multi_coord = (coord_type in ["sidereal", "driftscan"]) and (
+        np.size(lon_coord) > 1 and np.shape(lon_coord) == np.shape(time_array)
+    )
+    if multi_coord:
+        unique_time_array = np.asarray(time_array)
+        unique_mask = np.arange(unique_time_array.size)
+
     if coord_type in ["driftscan", "unprojected"]:
         if lst_array is None:
             unique_lst = get_lst_for_time(unique_time_array, telescope_loc=site_loc)
@@ -2255,6 +2264,9 @@ def calc_app_coords(
     app_ra = np.zeros(np.array(time_array).shape)
     app_dec = np.zeros(np.array(time_array).shape)
 
+    if multi_coord:
+        return app_ra + unique_app_ra, app_dec + unique_app_dec
+
     for idx, unique_time in enumerate(unique_time_array):
         select_mask = time_array == unique_time
         app_ra[select_mask] = unique_app_ra[idx]
-- 
2.43.0


From b660e80bd926eb63a6f87c1543c729b042520906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 127/130] fix: uvw_track_generator uses the epoch of the
 coordinates

---
 src/pyuvdata/utils/phasing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 106bc76..947b982 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -2539,6 +2539,7 @@ def uvw_track_generator(
         lon_coord=lon_coord,
         lat_coord=lat_coord,
         coord_frame=coord_frame,
+        coord_epoch=coord_epoch,
         coord_type=coord_type,
         time_array=time_array,
         lst_array=lst_array,
-- 
2.43.0


From 7503ad191a6e8aae37ba0311656da5f5bb7fa262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 128/130] fix: MirMetaData equality compares masks record by
 record

---
 src/pyuvdata/uvdata/mir_meta_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 36ffec0..91aaf8e 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -709,7 +709,10 @@ class MirMetaData(object):
         is_eq = True
 
         # Start with the mask comparison first.
-        if comp_mask and not np.array_equal(self._mask, other._mask):
+        if comp_mask and not np.array_equal(
+            self._mask if use_mask else self._mask[this_idx],
+            other._mask if use_mask else other._mask[other_idx],
+        ):
             verbose_print("%s masks are different." % name)
             is_eq = False
 
-- 
2.43.0


From c6c4eb2a7102f57aeed6c55408485e9c503fbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 129/130] fix: MirMetaData combination uses the other object's
 own mask

---
 src/pyuvdata/uvdata/mir_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index 91aaf8e..cfc27ff 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -2102,7 +2102,7 @@ class MirMetaData(object):
                 if not self._mask[value]:
                     _ = index_dict1.pop(key)
             for key, value in list(index_dict2.items()):
-                if not self._mask[value]:
+                if not other._mask[value]:
                     _ = index_dict2.pop(key)
 
         # See if we have any overlapping keys
-- 
2.43.0


From 471650065f2aafbf6b8044863a5c085b6ff8c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 130/130] fix: MirMetaData combination of the same keys in
 another order

---
 src/pyuvdata/uvdata/mir_meta_data.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/mir_meta_data.py b/src/pyuvdata/uvdata/mir_meta_data.py
index cfc27ff..6ec263f 100644
--- a/src/pyuvdata/uvdata/mir_meta_data.py
+++ b/src/pyuvdata/uvdata/mir_meta_data.py
@@ -2138,12 +2138,8 @@ class MirMetaData(object):
                 _ = [index_dict1.pop(key) for key in key_overlap]
             else:
                 # Check array index positions for arr1 first, see if all are flagged
-                arr1_idx = (
-                    ... if same_dict else [index_dict1[key] for key in key_overlap]
-                )
-                arr2_idx = (
-                    ... if same_dict else [index_dict2[key] for key in key_overlap]
-                )
+                arr1_idx = [index_dict1[key] for key in key_overlap]
+                arr2_idx = [index_dict2[key] for key in key_overlap]
                 arr1_mask = self._mask[arr1_idx]
                 arr2_mask = other._mask[arr2_idx]
 
-- 
2.43.0

