From a46db3d5c850043e033693f10f04841eab0e5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 01/35] fix: keep the larger phase's cloud below mixed-phase
 cloud when the other phase is absent

_allocate_strat_sub_col subtracted the overlying columns from the columns left
to assign without assigning them when the smaller of the two counts was zero,
so e.g. two liquid columns below (2 liquid, 1 ice) became one.
---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..d82e535 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -631,8 +631,8 @@ def _allocate_strat_sub_col(tt, cld_2_assigns, I_min, I_max, conv_profs,
                     rand_locs = _randperm(overlying_num.min(), size=cld_2_assign[I_min])
                     inds = locals()["overlying_locs%d" % (Iover_min + 1)][rand_locs]
                     strat_profs[I_min, inds, j] = True
-                    inds = locals()["overlying_locs%d" % (Iover_min + 1)]
-                    strat_profs[I_max, inds, j] = True
+                inds = locals()["overlying_locs%d" % (Iover_min + 1)]
+                strat_profs[I_max, inds, j] = True
                 cld_2_assign[I_min] = 0
                 cld_2_assign[I_max] -= overlying_num[Iover_min]
 
-- 
2.43.0


From a7c03a679071e4d949dc8cef50127e5b2492484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 02/35] fix: distribute cloud water over the time steps in
 order when chunking

With parallel=True and a chunk size, set_q_n walked the time axis backwards in
overlapping chunks, so the stacked result had the wrong order and length.
---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index d82e535..67aeef8 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -543,16 +543,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From 98a5e9ee1f52611fa49d4c0689e3399922c08174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 03/35] fix: do not draw sub-grid cloud water where the
 grid-cell mean is zero

With the microphysics logic a cell can have a cloud fraction but no cloud
water; _distribute_cl_q_n then looped forever.
---
 emc2/simulator/subcolumn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 67aeef8..065cefe 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -756,7 +756,7 @@ def _distribute_cl_q_n(tt, sub_data_frac, inv_rel_var, N_columns, tot_hyd_in_sub
         hyd_in_sub_loc = np.where(sub_data_frac[:, tt, j])[0]
         if tot_hyd_in_sub[tt, j] == 1:
             q_profs[hyd_in_sub_loc, j] = q_ic_mean[tt, j]
-        elif tot_hyd_in_sub[tt, j] > 1:
+        elif tot_hyd_in_sub[tt, j] > 1 and q_ic_mean[tt, j] > 0:
             alpha = inv_rel_var[tt, j] / q_ic_mean[tt, j]
             a = inv_rel_var[tt, j]
             b = 1 / alpha
-- 
2.43.0


From efdb6e054e3d498ca8c21d0796495d87a9524c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 04/35] fix: give the convective fraction its subcolumn
 dimension when there is one subcolumn

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 065cefe..9fdfaea 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]],
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From 3faaef60b2cb7fb3cae620e2e3a061370ac2f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 05/35] fix: attenuate the empirical reflectivity by the water
 of all liquid classes

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..8d81e1a 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -192,10 +192,10 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     Dims = model.ds["%s_q_subcolumns_cl" % cloud_str].shape
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
+    WC_tot = np.zeros(Dims)
 
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From 58049f3e83ecc0325983838aa9263851498f6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 06/35] fix: attenuate the microphysics radar signal by all
 hydrometeor classes

---
 emc2/simulator/radar_moments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 8d81e1a..99c70d6 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,6 +539,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
@@ -661,7 +662,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot = np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -704,7 +705,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
-- 
2.43.0


From 3d58ce313ac03dde41b6b6f03b120b33fd774295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 07/35] fix: keep the Doppler moments of classes that come
 before cloud liquid

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 99c70d6..d9df008 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -658,9 +658,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
             hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
@@ -805,7 +805,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From 07769f79d916420161d2d9be901edcfde8f5bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 08/35] fix: use each class's own air density correction in the
 total spectral width

---
 emc2/simulator/radar_moments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index d9df008..3b166c3 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -774,6 +774,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = model.vel_param_a[hyd_type] * p_diam ** model.vel_param_b[hyd_type]
                 v_tmp = -v_tmp.magnitude
 
+            # Air density correction of terminal velocity for this hydrometeor class
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)
+            if hyd_type in model.Vd_rhoa_scaling_ref.keys():
+                if model.Vd_rhoa_scaling_ref[hyd_type] is not None:
+                    rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
+
             frac_names = "strat_frac_subcolumns_%s" % hyd_type
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
-- 
2.43.0


From 2048235b48934841907806bdcb9e333dec798899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 09/35] fix: start the microphysics totals from zero when they
 are calculated again

---
 emc2/simulator/lidar_moments.py | 10 +++-------
 emc2/simulator/radar_moments.py | 11 +++--------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..c5f2c95 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -579,18 +579,14 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+    for var in ("sub_col_beta_p_tot_strat", "sub_col_alpha_p_tot_strat", "sub_col_OD_tot_strat"):
+        model.ds[var] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 3b166c3..44cc159 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -541,19 +541,14 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     sigma_d_numer_tot = np.zeros(Dims)
     hyd_ext = np.zeros(Dims)
 
+    for var in ("sub_col_Ze_tot_strat", "sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"):
+        model.ds[var] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_Vd_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From 1d1bbb1ced77e739fdd21219d7f651605660de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 10/35] fix: honour the depolarization ratios passed to
 calc_LDR_and_ext

---
 emc2/simulator/lidar_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index c5f2c95..05c6f8c 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -122,7 +122,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * \
+                getattr(LDR_per_hyd[hyd_type], "magnitude", LDR_per_hyd[hyd_type])
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From 117f4f8d481405501548d4054c098a399cddafb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 11/35] fix: accumulate the molecular optical depth from the
 lidar's side of the column

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 05c6f8c..14500b2 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -801,7 +801,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From 204376e8aa5ce9da44399773c24d1dfd847e390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 12/35] fix: honour the radar reference range passed to
 make_simulated_data

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..e4a872d 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -171,7 +171,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From c5f34b2e0554eaf2747dc5adbf3a1ed23ccc2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 13/35] fix: set the P3 ice inputs also when the interpolators
 were made by an earlier call

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 emc2/simulator/radar_moments.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 14500b2..4963690 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -632,12 +632,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             calc_kws = i_calc_kws
         else:
             calc_kws = None
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 44cc159..5fbc266 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -607,13 +607,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From 192c511a30a85eef8eb0b76c0e5a21f0c6815f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 14/35] fix: no hydrometeor extinction in subcolumns without
 the class in the bulk radar calculation

---
 emc2/simulator/radar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 5fbc266..fb9933b 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -422,7 +422,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qback_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             back_tmp = np.full(mu_array.shape, np.nan, dtype=float)
-            ext_tmp = np.copy(back_tmp)
+            ext_tmp = np.zeros(mu_array.shape, dtype=float)
             np.place(back_tmp, rel_locs,
                      (interp_vals * instrument.wavelength ** 4) /
                      (instrument.K_w * np.pi ** 5) * 1e-6)
@@ -439,7 +439,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
                                 (instrument.K_w * np.pi ** 5) * 1e-6, np.nan)
             print("3-D interpolation of bulk ice radar extinction using Fr-rho_r-q_norm values")
-            ext_tmp = np.where(sub_frac_arr, scat_dict["Q_ext_bulk"], np.nan)
+            ext_tmp = np.where(sub_frac_arr, scat_dict["Q_ext_bulk"], 0.)
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-- 
2.43.0


From 32829e08a84af15c5ec2017368074a0cefe2aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 15/35] fix: compare the pressure in hPa when choosing the
 oxygen line width

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 93c1d50..baaaa30 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -71,8 +71,8 @@ def calc_radar_atm_attenuation(instrument, model):
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-    gamma_0[column_ds[p_field].values >= 333] = 0.59
-    gamma_0[column_ds[p_field].values < 25.] = 1.18
+    gamma_0[p_temp >= 333] = 0.59
+    gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
     kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
         gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-- 
2.43.0


From 95b8804d536724ed1fa2508ab97035b61ce1b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 16/35] fix: convert the height to meters for the minimum
 detectable reflectivity

---
 emc2/simulator/attenuation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index baaaa30..c031e44 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -23,7 +23,9 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
         The Model class that will store the Ze_min profile.
     """
 
-    Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
+    z_field = model.ds[model.z_field]
+    z_values = quantity(z_field.values, z_field.attrs["units"]).to("meter").magnitude
+    Ze_min = instrument.Z_min_1km + 20 * np.log10(z_values) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
     model.ds["Ze_min"].attrs["long_name"] = "Minimum discernable radar reflectivity factor"
     model.ds["Ze_min"].attrs["units"] = 'dBZ'
-- 
2.43.0


From b641fa8aee9ea74c8d8ca556d5910fc01b1a3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 17/35] fix: use the magnitude of the density in the empirical
 lidar extinction

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 4963690..e9eba7d 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -257,7 +257,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From 447807ef36eed77441b105136d62016e0761a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 18/35] fix: gaseous radar absorption takes the frequency in
 GHz, water vapour relation grouped as published

---
 emc2/simulator/attenuation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index c031e44..082a771 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -61,24 +61,27 @@ def calc_radar_atm_attenuation(instrument, model):
     t_temp = quantity(model.ds[t_field].values, model.ds[t_field].attrs["units"]).to("kelvin").magnitude
     p_temp = quantity(model.ds[p_field].values, model.ds[p_field].attrs["units"]).to("hPa").magnitude
 
+    # The absorption relations take the frequency in GHz
+    freq = instrument.freq * 1e-9
+
     column_ds = model.ds
 
     rho_wv = column_ds[q_field] * 1e3 * (p_temp * 1e2) / (instrument.R_d * t_temp)
     three_hundred_t = 300. / t_temp
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * instrument.freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
-        (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - instrument.freq**2)**2 + 4 * instrument.freq**2) * gamma_l**2 + 1.2e-6
+    kappa_wv = 2 * freq**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+        ((three_hundred_t) * np.exp(-644 / t_temp) *
+         1 / ((494.4 - freq**2)**2 + 4 * freq**2 * gamma_l**2) + 1.2e-6)
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
     gamma_0[p_temp >= 333] = 0.59
     gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
-    kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
-        gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-                   (instrument.freq**2 + gamma_l**2))
+    kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
+        gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
+                   (freq**2 + gamma_l**2))
 
     column_ds['kappa_o2'] = xr.DataArray(kappa_o2, dims=model.ds[t_field].dims)
     column_ds['kappa_o2'].attrs["long_name"] = "Gaseous attenuation due to O2"
-- 
2.43.0


From e992c576f69b757306cb219d52fc8b1784a2b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 19/35] fix: fixed droplet dispersion for ModelE (model name is
 ModelE3)

---
 emc2/simulator/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index c310935..1118f11 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -99,7 +99,7 @@ def calc_mu_lambda(model, hyd_type="cl",
     column_ds = model.ds
 
     if calc_dispersion is None:
-        if model.model_name in ["ModelE", "DHARMA"]:
+        if model.model_name in ["ModelE", "ModelE3", "DHARMA"]:
             calc_dispersion = False
         else:
             calc_dispersion = True
-- 
2.43.0


From b8f42257e6ed3bd49077cee9e5452420b291d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 20/35] fix: radar microphysics approach runs with the NSSL
 scheme (fall speeds downward, per particle density)

---
 emc2/simulator/radar_moments.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index fb9933b..36d8656 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -587,12 +587,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
         num_subcolumns = model.num_subcolumns
         rhoe = None
         if model.mcphys_scheme == "nssl":
-            rhoe = model.Rho_hyd[hyd_type]
-            if rhoe == 'variable':
+            calc_kws = None
+            if model.Rho_hyd[hyd_type] == 'variable':
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
-                v_tmp = 'variable'
+                v_tmp = 'variable'  # set per grid cell from the particle density
             else:
-                v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, model.Rho_hyd[hyd_type].magnitude, hyd_type)
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -755,12 +755,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
             rhoe = None
             if model.mcphys_scheme == "nssl":
-                rhoe = model.Rho_hyd[hyd_type]
-                if rhoe == 'variable':
+                calc_kws = None
+                if model.Rho_hyd[hyd_type] == 'variable':
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
-                    v_tmp = 'variable'
+                    v_tmp = 'variable'  # set per grid cell from the particle density
                 else:
-                    v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    v_tmp = -calc_velocity_nssl(p_diam, model.Rho_hyd[hyd_type].magnitude, hyd_type)
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
@@ -1070,9 +1070,11 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
+        if mcphys_scheme.lower() == "nssl":  # NSSL parameterization for fall velocity
+            v_tmp = -calc_velocity_nssl(p_diam, None, hyd_type)
+        elif mcphys_scheme.lower() in ["mg2", "mg", "morrison", "p3"]:  # power-law velocity schemes for liquid
             v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
+            v_tmp = -v_tmp.magnitude.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1121,7 +1123,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1239,7 +1241,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From 14f1584d170d079cbde2e33b0990c2fd077a353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 21/35] fix: regrid to levels above the model top, and keep the
 lowest model layer

The loop over the old levels ran past the last one when a new level reached above
the model top, and after a step back it started from the second layer, so that a
lowest layer which spans several new levels or starts above the first was lost.
New levels with no layer of the old grid are missing.
---
 emc2/statistics_LLNL/statistical_aggregation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..63f62ea 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -246,7 +246,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
@@ -286,14 +286,14 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
                                 yp = y[i, j, lev]
 
                             r[i, j, k] = r[i, j, k] + w*yp
-            lev -= 2
-            if lev < 1:
-                lev = 0
+            lev = max(lev - 2, -1)  # zero-based: the loop starts from the layer below the one reached
 
             # Calculate average in new grid
             if Nw > 0:
                 for j in np.arange(Ncolumns):
                     r[i, j, k] = r[i, j, k] / wt
+            else:  # No layer of the old grid
+                r[i, :, k] = R_UNDEF
 
     for k in np.arange(Nglevels):
         for j in np.arange(Ncolumns):
-- 
2.43.0


From 15b60dff8a170e94b1d785f5c3f9b505a10545a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 22/35] fix: treat regridded signals below ground or with
 missing layers as missing

Only exact missing values were recognized: the scattering ratio below the ground
was the ratio of two flags, i.e. 1.
---
 emc2/statistics_LLNL/statistical_aggregation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 63f62ea..5a7f6d6 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -148,6 +148,7 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
     """
 
     R_UNDEF = -1.0E30
+    R_GROUND = -1.0E20  # below ground, or (when lower) a mean with missing layers
     b = copy.deepcopy(atb_total_4D)
     atb_total_4D_num = np.nan_to_num(b, nan=R_UNDEF)
     c = copy.deepcopy(atb_mol_4D)
@@ -181,9 +182,9 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
         Regrided_atb_mol_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_atb_mol_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_atbtot = np.where(Regrided_atb_total_reorder_4D == R_UNDEF)
+    loc_atbtot = np.where(Regrided_atb_total_reorder_4D <= R_GROUND)
     Regrided_atb_total_reorder_4D[loc_atbtot] = np.nan
-    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D == R_UNDEF)
+    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D <= R_GROUND)
     Regrided_atb_mol_reorder_4D[loc_atbmol] = np.nan
 
     SR_4D = Regrided_atb_total_reorder_4D / Regrided_atb_mol_reorder_4D
@@ -345,6 +346,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
     """
 
     R_UNDEF = -1.0E30  # Missing value
+    R_GROUND = -1.0E20  # below ground, or (when lower) a mean with missing layers
 
     a = copy.deepcopy(Ze_att_total_4D)
     Ze_att_total_4D_num = np.nan_to_num(a, nan=R_UNDEF)
@@ -367,7 +369,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
         Regrided_Ze_att_tot_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_ze_att_total_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D == R_UNDEF)
+    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D <= R_GROUND)
     Regrided_Ze_att_tot_reorder_4D[loc_ze] = np.nan
 
     return Regrided_Ze_att_tot_reorder_4D
-- 
2.43.0


From 8ceadd2682de9c6dae3f34cc0f755a5f158a2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 23/35] fix: half levels are the bottoms of the layers, as the
 regridding expects

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 5a7f6d6..96ceb68 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -100,8 +100,8 @@ def get_ATB_ATBmol(model, subcolumn_index, time_index, ncol_index):
 
     zfull = copy.deepcopy(z_filed_m)
     zhalf = np.zeros_like(zfull)
-    zhalf[:-1] = zfull[:-1] + np.diff(zfull) / 2.
-    zhalf[-1] = zfull[-1]
+    zhalf[1:] = zfull[:-1] + np.diff(zfull) / 2.  # bottom of each layer
+    zhalf[0] = zfull[0] - (zfull[1] - zfull[0]) / 2.
 
     return sub_atb_total, sub_atb_mol, z_filed_m, zhalf, sub_ze_att_total
 
-- 
2.43.0


From daca2705b0750b893444cb95fd17ce239c1f0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 24/35] fix: leave missing values out of the mean profiles in
 plots

Powers of a masked array come back with the base in the masked cells, so
the geometric mean of a reflectivity profile counted every missing value
as 10 without dividing by it.
---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 99f2cc2..d3c49cb 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -838,7 +838,7 @@ class SubcolumnDisplay(Display):
             y_variable = np.nanmean(y_variable, axis=0)
 
         x_variable = my_ds[variable].squeeze().values
-        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
+        x_variable = np.where(np.isfinite(x_variable), x_variable, np.nan)
         if Mask_array is not None:
             Mask_array = Mask_array.squeeze()  # prevent singleton dimension issues
             if Mask_array.shape == x_variable.shape:
@@ -990,7 +990,7 @@ class SubcolumnDisplay(Display):
         else:
             time_ind = np.logical_and(my_ds.time >= time_range[0], my_ds.time < time_range[1])
             x_variable = my_ds[variable].isel(time=time_ind)
-        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
+        x_variable = np.where(np.isfinite(x_variable), x_variable, np.nan)
         if Mask_array is not None:
             if Mask_array.shape == x_variable.shape:
                 x_variable = np.where(Mask_array <= 0, x_variable, np.nan)
-- 
2.43.0


From e1f76391dec2cd4bfc3ffa1c8058f658e3f2d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 25/35] fix: plotting regridded fields leaves the caller's
 array alone

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index d3c49cb..c115729 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1251,7 +1251,7 @@ class SubcolumnDisplay(Display):
         x, y = np.meshgrid(x, y)
         
         #  modified    
-        var_array = np.squeeze(var_array_3D[:,:,col_index]).T
+        var_array = np.squeeze(var_array_3D[:,:,col_index]).T.copy()
         var_array[var_array<=0]=np.nan  # can be with blue 
                         
         if y_range is not None:
@@ -1343,7 +1343,7 @@ class SubcolumnDisplay(Display):
         x = my_ds[x_variable].values
         y = newgrid_mid*1000. # from km to m
         x, y = np.meshgrid(x, y)  
-        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T   
+        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T.copy()   
         var_array[var_array==0]=np.nan
                 
         if y_range is not None:
-- 
2.43.0


From fd7979fb95aaa5c4922a3a329dfff2ca401e6967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:48 +0000
Subject: [PATCH 26/35] fix: radar moments of P3 ice alone (microphysics
 approach) no longer fail on missing PSD fields

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 36d8656..40f82a9 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -836,7 +836,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     else: 
         print("User chose to skip spectral width calculations")
  
-    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"))
+    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"), errors="ignore")  # not set if only P3 ice is processed
 
     if calc_spectral_width:
         model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(np.sqrt(sigma_d_numer_tot / moment_denom_tot),
-- 
2.43.0


From 2f78bebb43722079987c0d9948b567e4fa30d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 27/35] fix: water spheres: backscattering and scattering cross
 sections were exchanged

scat_properties_water calculated beta_p from the scattering efficiency and
scat_p from the backscattering efficiency (scat_properties_ice has them right).
---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 27a4a2f..5b61cee 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -88,8 +88,8 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
     my_dict['alpha_p'] = my_dict['ext_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['beta_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['scat_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['beta_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
-- 
2.43.0


From 90dac67a34574ed4d3868f44ff113ac66cc601a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 28/35] fix: size parameter of calculated spheres mixed nm and
 microns

The diameters PyMieScatt returns are in nm (p_diam is diams * 1e-9) and were
divided by the wavelength in microns: the size parameter was 1000 times too large.
---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 5b61cee..fd09e53 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -92,7 +92,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
@@ -194,7 +194,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
-- 
2.43.0


From 9ef0612262a4487a675e9d814f572d771976a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:40 +0000
Subject: [PATCH 29/35] fix: bounding box dropped its last row and column

_crop_bounding_box looks up the rows and columns nearest to the corners of the
box and used them as a half-open range, so the last row and column within the
box were lost (and a box around a single column was empty).
---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..1fe1ff3 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -231,8 +231,8 @@ class Model():
         bounding_box_ind[3] = np.argmin(
                np.abs(bounding_box[3] - np.squeeze(XLONG_max.values)))
         input_dict = {}
-        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2])
-        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3])
+        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2] + 1)
+        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3] + 1)
         self.ds = self.ds.isel(input_dict)
 
     def _crop_bounding_box_x_y(self, bounding_box):
-- 
2.43.0


From ebdd40b26069f1eed5cb6c559385e73ea06ae164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 30/35] fix: DHARMA with two precipitating ice classes used the
 fraction of rimed ice as its radius

The effective radius fields of the class pir were set to strat_pir_frac.
---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 1fe1ff3..37e2652 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1465,8 +1465,8 @@ class DHARMA(Model):
             self.strat_frac_names.update({'pir': 'strat_pir_frac'})
             self.conv_frac_names_for_rad.update({'pir': 'conv_dat'})
             self.strat_frac_names_for_rad.update({'pir': 'strat_pir_frac'})
-            self.conv_re_fields.update({'pir': 'strat_pir_frac'})
-            self.strat_re_fields.update({'pir': 'strat_pir_frac'})
+            self.conv_re_fields.update({'pir': 'conv_dat'})
+            self.strat_re_fields.update({'pir': 're_strat_pir'})
             self.q_names_convective.update({'pir': 'conv_dat'})
             self.q_names_stratiform.update({'pir': 'qpir'})
             self.Vd_rhoa_scaling_ref['pir'] = 1.15  # Localleti and Hobbs (1974) - est. based on paper info
-- 
2.43.0


From 04a11bd899e0ebd9a5a01701302decef58541caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 31/35] fix: saved subcolumns lacked the scattering ratio and
 backscatter of the COSP emulator

The fields COSP_SR_*, COSP_ATBtot_* and COSP_ATBcross_* have a value per
subcolumn and were dropped by subcolumns_to_netcdf.
---
 emc2/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 37e2652..f90d5cb 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -565,7 +565,8 @@ class Model():
             The name of the file to save to.
         """
         # Set all relevant variables to save:
-        vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", self.time_dim, "Times"]
+        vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", "COSP_",
+                        self.time_dim, "Times"]
         var_dict = {}
         for my_var in self.ds.variables.keys():
             if np.any([x in my_var for x in vars_to_keep]):
-- 
2.43.0


From ab35aec06109683cdc427d21c3b57aa11f2da1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:46 +0000
Subject: [PATCH 32/35] fix: cells without a class wiped out the hydrometeor
 attenuation above them in the radiation approach

Models give no effective radius (NaN) where a class is absent, which made the
extinction of that cell, and of everything beyond it, missing.
---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 40f82a9..676fc86 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.where(sub_frac_arr == 1, ext_tmp * A_hyd, 0.)  # unset (NaN) inputs in clear grid cells
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,13 +443,13 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.where(sub_frac_arr == 1, ext_tmp * A_hyd, 0.)  # unset (NaN) inputs in clear grid cells
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
                 (instrument.K_w * np.pi ** 5) * 1e-6,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd
+            hyd_ext += np.where(sub_frac_arr == 1, np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd, 0.)
 
         model.ds["sub_col_Ze_tot_%s" % cloud_str] += model.ds["sub_col_Ze_%s_%s" % (
             hyd_type, cloud_str)].fillna(0)
-- 
2.43.0


From b1d49d5bbc286675fdc2ff5b955994f0cfac5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 33/35] fix: bulk lidar calculation failed for classes with a
 density per cell

---
 emc2/simulator/lidar_moments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index e9eba7d..1493805 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -418,10 +418,11 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
                         i_calc_kws["Fr_in"], i_calc_kws["rho_r_in"], i_calc_kws["q_norm_in"]))
                     re_array = np.tile(re_interped * rhoi_eff_interped / rho_b, (model.num_subcolumns, 1, 1))
         else:
-            rho_b = instrument.rho_i  # bulk ice
-            rho_hyd = model.Rho_hyd[hyd_type]
-            if rho_hyd == 'variable':
+            rho_b = instrument.rho_i.magnitude  # bulk ice
+            if model.Rho_hyd[hyd_type] == 'variable':
                 rho_hyd = model.ds[model.variable_density[hyd_type]].values
+            else:
+                rho_hyd = model.Rho_hyd[hyd_type].magnitude
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0


From f0fd9b17a8ef4cbd9229471d2480a6a0a6483c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:06 +0000
Subject: [PATCH 34/35] fix: mass phase ratio left out snow, graupel and hail
 classes

---
 emc2/simulator/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 76d1037..8152f1f 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -439,7 +439,7 @@ def calculate_phase_ratio(model, variable, mask_class, mask_allhyd=None, mass_pr
 
     if mass_pr is True:
         liq_classes = [x for x in ["cl", "pl"] if x in hyd_types]
-        ice_classes = [x for x in ["ci", "pi"] if x in hyd_types]
+        ice_classes = [x for x in hyd_types if x not in ["cl", "pl"]]
         if mpr_subcolmod is True:
             mass_subcol_liq = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
             mass_subcol_ice = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
-- 
2.43.0


From fdd3c643f6d2fd1546f616ae73127ac960dbee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:06 +0000
Subject: [PATCH 35/35] fix: COSP emulation left out snow, graupel and hail
 classes

---
 emc2/simulator/classification.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 8152f1f..d524e6f 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -236,7 +236,8 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         atb_cross_coeff = {'liq': [0.4099, 0.009, 0], 'ice': [0.2904, 0]}
 
     if inc_precip_hyd_atb:
-        hyd_classes = {"liq": ["cl", "pl"], "ice": ["ci", "pi"]}
+        hyd_classes = {"liq": ["cl", "pl"],
+                       "ice": ["ci", "pi"] + [x for x in hyd_types if x not in ["cl", "ci", "pl", "pi"]]}
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
-- 
2.43.0

