From 255feadfa6f26ba7e51a5cac8173dac3d2990432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 01/67] fix: allocate the larger stratiform class under
 overlying cloud when the other class is absent

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..d82e535 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -631,8 +631,8 @@ def _allocate_strat_sub_col(tt, cld_2_assigns, I_min, I_max, conv_profs,
                     rand_locs = _randperm(overlying_num.min(), size=cld_2_assign[I_min])
                     inds = locals()["overlying_locs%d" % (Iover_min + 1)][rand_locs]
                     strat_profs[I_min, inds, j] = True
-                    inds = locals()["overlying_locs%d" % (Iover_min + 1)]
-                    strat_profs[I_max, inds, j] = True
+                inds = locals()["overlying_locs%d" % (Iover_min + 1)]
+                strat_profs[I_max, inds, j] = True
                 cld_2_assign[I_min] = 0
                 cld_2_assign[I_max] -= overlying_num[Iover_min]
 
-- 
2.43.0


From dbe3db56d16f1473b5434b85a3dceaf567e0c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 02/67] fix: give the single-subcolumn convective mask its
 subcolumn dimension

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index d82e535..6f74378 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]].values,
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From 63a3bd1a525c0bff018f95fe982235194544a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 03/67] fix: end the subcolumn q distribution when occupied
 subcolumns hold no condensate

---
 emc2/simulator/subcolumn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 6f74378..d221aa6 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -757,7 +757,7 @@ def _distribute_cl_q_n(tt, sub_data_frac, inv_rel_var, N_columns, tot_hyd_in_sub
         hyd_in_sub_loc = np.where(sub_data_frac[:, tt, j])[0]
         if tot_hyd_in_sub[tt, j] == 1:
             q_profs[hyd_in_sub_loc, j] = q_ic_mean[tt, j]
-        elif tot_hyd_in_sub[tt, j] > 1:
+        elif tot_hyd_in_sub[tt, j] > 1 and q_ic_mean[tt, j] > 0:
             alpha = inv_rel_var[tt, j] / q_ic_mean[tt, j]
             a = inv_rel_var[tt, j]
             b = 1 / alpha
-- 
2.43.0


From dae2681c9ab963561d446ed18b22cf5ae08f0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 04/67] fix: keep the time columns and their order when
 distributing q in chunks

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index d221aa6..71a6ce4 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -544,16 +544,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From 08bd8259e61b0c729e7e97cde0e977a451e5d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 05/67] fix: use the magnitude of the bulk density in the
 empirical lidar extinction

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..c69fd1f 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -256,7 +256,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From 50c5b5bd71e18c81d18994311ab41db1a9b1fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 06/67] fix: start the radar microphysics totals from zero on
 every run

---
 emc2/simulator/radar_moments.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..cee2465 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -540,19 +540,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
 
+    # totals always start from zero, also when the model already holds the output of a previous run
+    for tot_name in ["sub_col_Ze_tot_strat", "sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"]:
+        model.ds[tot_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_Vd_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From c58e97dca93424118364bc6c3536458d5d6964b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 07/67] fix: start the lidar microphysics totals from zero on
 every run

---
 emc2/simulator/lidar_moments.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index c69fd1f..31981b9 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -579,18 +579,16 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+
+    # totals always start from zero, also when the model already holds the output of a previous run
+    for tot_name in ["sub_col_beta_p_tot_strat", "sub_col_alpha_p_tot_strat", "sub_col_OD_tot_strat"]:
+        model.ds[tot_name] = xr.DataArray(np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From df084dfd85f8d84da20fe835355aaf99fb01d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 08/67] fix: count clear cells as non-attenuating in the radar
 LUT-based transmittance

---
 emc2/simulator/radar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index cee2465..32edcb3 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,7 +443,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
-- 
2.43.0


From 407e72edc4db5550a2cd9aa3ba933fd1d68e3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 09/67] fix: attenuate by all liquid classes in the empirical
 radar logic

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 32edcb3..1796a52 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -193,9 +193,9 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
+    WC_tot = np.zeros(Dims)
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From 016706a1214901278bf44f330d70634ed4a8f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 10/67] fix: accumulate all classes in the radar microphysics
 attenuation and moments

---
 emc2/simulator/radar_moments.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 1796a52..8c03d59 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,6 +539,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
 
     # totals always start from zero, also when the model already holds the output of a previous run
     for tot_name in ["sub_col_Ze_tot_strat", "sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"]:
@@ -653,11 +654,11 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -700,7 +701,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
@@ -800,7 +801,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From e2da811e27e17ac6f701e05c66350eb453af2a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 11/67] fix: use the air density correction of each class in
 the total spectral width

---
 emc2/simulator/radar_moments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 8c03d59..47f8bad 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -774,6 +774,11 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
 
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)  # by default, no correction is applied
+            if hyd_type in model.Vd_rhoa_scaling_ref.keys():
+                if model.Vd_rhoa_scaling_ref[hyd_type] is not None:
+                    rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
+
             Vd_tot = model.ds["sub_col_Vd_tot_strat"].values
             if hyd_type == "cl":
 
-- 
2.43.0


From ad56bc98ed0506bed1880b83ba05ac0ea3cef73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 12/67] fix: accumulate the molecular optical depth from the
 side of the lidar

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 31981b9..e1cbfbd 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -802,7 +802,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From 47fdefa1f375f5ed509d2eea8ad990903649cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 13/67] fix: honour the ref_rng argument of make_simulated_data

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..e4a872d 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -171,7 +171,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From b5414d99fea4c070902dbbeb304b2ae9565a35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 14/67] fix: convert heights to meters in the radar sensitivity

---
 emc2/simulator/attenuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 93c1d50..c337a1c 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -23,7 +23,8 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
         The Model class that will store the Ze_min profile.
     """
 
-    Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
+    z_m = quantity(model.ds[model.z_field].values, model.ds[model.z_field].attrs["units"]).to("meter").magnitude
+    Ze_min = instrument.Z_min_1km + 20 * np.log10(z_m) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
     model.ds["Ze_min"].attrs["long_name"] = "Minimum discernable radar reflectivity factor"
     model.ds["Ze_min"].attrs["units"] = 'dBZ'
-- 
2.43.0


From 7485304d0a5d18b67dde7bd8bdd993e554e20b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 15/67] fix: honour the LDR_per_hyd argument of
 calc_LDR_and_ext

---
 emc2/simulator/lidar_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index e1cbfbd..99b7d8a 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -122,7 +122,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * \
+                getattr(LDR_per_hyd[hyd_type], "magnitude", LDR_per_hyd[hyd_type])
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From 34234ef2d6caa7bc9087c4cb3d840022efa0c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 16/67] fix: allow lidar simulations that leave out the first
 hydrometeor class

---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 99b7d8a..61d98eb 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -114,8 +114,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
     else:
         OD_str = ("layer top", "from TOA")
 
-    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
-    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
+    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_tot_strat"])
+    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_tot_strat"])
     for cloud_str in cld_classes:
         numerator = 0.
         denominator = 0.
-- 
2.43.0


From 52f7795a97f652c057e7e1ae47bc12ddba7cdb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 17/67] fix: stop the vertical regridding at the top of the old
 grid

---
 emc2/statistics_LLNL/statistical_aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..a2bbea9 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -246,7 +246,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
-- 
2.43.0


From 5477e9be041048a400b117982c320e276f7f548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 18/67] fix: keep the bottom level in the vertical regridding
 of several bins

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index a2bbea9..9cf0845 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -287,8 +287,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
 
                             r[i, j, k] = r[i, j, k] + w*yp
             lev -= 2
-            if lev < 1:
-                lev = 0
+            if lev < 0:
+                lev = -1  # (zero-based) restart at the bottom level
 
             # Calculate average in new grid
             if Nw > 0:
-- 
2.43.0


From 0501209180157d20180201901fa1b6a017a108b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 19/67] fix: regrid the radar reflectivity in linear units

---
 emc2/statistics_LLNL/statistical_aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 9cf0845..ff1a9ae 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -361,7 +361,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
         Regrided_ze_att_total_3D = COSP_CHANGE_VERTICAL_GRID(
             Npoints, Ncolumns, Nlevels, zfull,
             zhalf, y_input_zeatttot, Nglevels,
-            newgrid_bot, newgrid_top, lunits=False)
+            newgrid_bot, newgrid_top, lunits=True)
 
         # need to covert to right dimension order
         Regrided_Ze_att_tot_reorder_4D[:, :, :, kk] = np.transpose(
-- 
2.43.0


From 61c114be156005038bd4adc3b449651566706e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 20/67] fix: use the bottom of each layer as its half level
 height

---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index ff1a9ae..5ac8143 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -100,8 +100,8 @@ def get_ATB_ATBmol(model, subcolumn_index, time_index, ncol_index):
 
     zfull = copy.deepcopy(z_filed_m)
     zhalf = np.zeros_like(zfull)
-    zhalf[:-1] = zfull[:-1] + np.diff(zfull) / 2.
-    zhalf[-1] = zfull[-1]
+    zhalf[1:] = zfull[:-1] + np.diff(zfull) / 2.  # layer bottoms, as required for the vertical regridding
+    zhalf[0] = 2. * zfull[0] - zhalf[1]  # Bottom level symmetric
 
     return sub_atb_total, sub_atb_mol, z_filed_m, zhalf, sub_ze_att_total
 
-- 
2.43.0


From da1366a078904b2e4e84e9ca7f0cf1908d5b1649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 21/67] fix: mark regridded radar and lidar signals below
 ground as missing

---
 emc2/statistics_LLNL/statistical_aggregation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 5ac8143..a892756 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -148,6 +148,7 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
     """
 
     R_UNDEF = -1.0E30
+    R_GROUND = -1.0E20  # below ground results
     b = copy.deepcopy(atb_total_4D)
     atb_total_4D_num = np.nan_to_num(b, nan=R_UNDEF)
     c = copy.deepcopy(atb_mol_4D)
@@ -181,9 +182,9 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
         Regrided_atb_mol_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_atb_mol_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_atbtot = np.where(Regrided_atb_total_reorder_4D == R_UNDEF)
+    loc_atbtot = np.where(np.isin(Regrided_atb_total_reorder_4D, [R_UNDEF, R_GROUND]))
     Regrided_atb_total_reorder_4D[loc_atbtot] = np.nan
-    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D == R_UNDEF)
+    loc_atbmol = np.where(np.isin(Regrided_atb_mol_reorder_4D, [R_UNDEF, R_GROUND]))
     Regrided_atb_mol_reorder_4D[loc_atbmol] = np.nan
 
     SR_4D = Regrided_atb_total_reorder_4D / Regrided_atb_mol_reorder_4D
@@ -345,6 +346,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
     """
 
     R_UNDEF = -1.0E30  # Missing value
+    R_GROUND = -1.0E20  # below ground results
 
     a = copy.deepcopy(Ze_att_total_4D)
     Ze_att_total_4D_num = np.nan_to_num(a, nan=R_UNDEF)
@@ -367,7 +369,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
         Regrided_Ze_att_tot_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_ze_att_total_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D == R_UNDEF)
+    loc_ze = np.where(np.isin(Regrided_Ze_att_tot_reorder_4D, [R_UNDEF, R_GROUND]))
     Regrided_Ze_att_tot_reorder_4D[loc_ze] = np.nan
 
     return Regrided_Ze_att_tot_reorder_4D
-- 
2.43.0


From 6eda5fe1d3b05cf9af28170896aa1d93382c3ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 22/67] fix: keep the grid points at the upper edges of the
 bounding box

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..1fe1ff3 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -231,8 +231,8 @@ class Model():
         bounding_box_ind[3] = np.argmin(
                np.abs(bounding_box[3] - np.squeeze(XLONG_max.values)))
         input_dict = {}
-        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2])
-        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3])
+        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2] + 1)
+        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3] + 1)
         self.ds = self.ds.isel(input_dict)
 
     def _crop_bounding_box_x_y(self, bounding_box):
-- 
2.43.0


From d1c92a2ddb482d72b84e2359217f9a0ee746b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 23/67] fix: read loaded subcolumns into memory before closing
 their file

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 1fe1ff3..c667af4 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -584,7 +584,7 @@ class Model():
         file_name: str
             Name of the file to save.
         """
-        my_file = xr.open_dataset(file_name)
+        my_file = xr.open_dataset(file_name).load()
         self.ds = xr.merge([self.ds, my_file])
         my_file.close()
 
-- 
2.43.0


From 95f29517e19a8c98293197b95229041d478f2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 24/67] fix: save the COSP emulator fields with the subcolumn
 output

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index c667af4..b278ab1 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -565,7 +565,7 @@ class Model():
             The name of the file to save to.
         """
         # Set all relevant variables to save:
-        vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", self.time_dim, "Times"]
+        vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", "COSP_", self.time_dim, "Times"]
         var_dict = {}
         for my_var in self.ds.variables.keys():
             if np.any([x in my_var for x in vars_to_keep]):
-- 
2.43.0


From 095273cedd818417ada46f752f91b9c8b9ffbbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:41 +0000
Subject: [PATCH 25/67] fix: evaluate the gaseous absorption at the radar
 frequency in GHz

---
 emc2/simulator/attenuation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index c337a1c..e8664d6 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -66,18 +66,19 @@ def calc_radar_atm_attenuation(instrument, model):
     three_hundred_t = 300. / t_temp
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * instrument.freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
-        (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - instrument.freq**2)**2 + 4 * instrument.freq**2) * gamma_l**2 + 1.2e-6
+    freq = instrument.freq * 1e-9  # GHz
+    kappa_wv = 2 * freq**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+        ((three_hundred_t) * np.exp(-644 / t_temp) *
+         1 / ((494.4 - freq**2)**2 + 4 * freq**2 * gamma_l**2) + 1.2e-6)
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
     gamma_0[column_ds[p_field].values >= 333] = 0.59
     gamma_0[column_ds[p_field].values < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
-    kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
-        gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-                   (instrument.freq**2 + gamma_l**2))
+    kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
+        gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
+                   (freq**2 + gamma_l**2))
 
     column_ds['kappa_o2'] = xr.DataArray(kappa_o2, dims=model.ds[t_field].dims)
     column_ds['kappa_o2'].attrs["long_name"] = "Gaseous attenuation due to O2"
-- 
2.43.0


From ce03e74daf2bbf3bb4beb99130096b6cf5ab932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 26/67] fix: select the oxygen line width by pressure in hPa

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index e8664d6..1a8e291 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -73,8 +73,8 @@ def calc_radar_atm_attenuation(instrument, model):
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-    gamma_0[column_ds[p_field].values >= 333] = 0.59
-    gamma_0[column_ds[p_field].values < 25.] = 1.18
+    gamma_0[p_temp >= 333] = 0.59
+    gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
     kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
         gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
-- 
2.43.0


From b084861882b0181f6aa980c664bb1d8669f292de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 27/67] fix: use the fixed droplet dispersion for ModelE3

---
 emc2/simulator/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index c310935..1118f11 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -99,7 +99,7 @@ def calc_mu_lambda(model, hyd_type="cl",
     column_ds = model.ds
 
     if calc_dispersion is None:
-        if model.model_name in ["ModelE", "DHARMA"]:
+        if model.model_name in ["ModelE", "ModelE3", "DHARMA"]:
             calc_dispersion = False
         else:
             calc_dispersion = True
-- 
2.43.0


From e32aa637695d4afca9c325ade896eae2ee2a202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 28/67] fix: compare temperatures in kelvin in the COSP phase
 emulation

---
 emc2/simulator/classification.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 76d1037..6859b80 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -2,6 +2,7 @@ import xarray as xr
 import numpy as np
 
 from ..core import Instrument, Model
+from ..core.instrument import quantity
 
 
 def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
@@ -240,6 +241,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
+    t_values = quantity(model.ds[model.T_field].values,
+                        model.ds[model.T_field].attrs["units"]).to('kelvin').magnitude
+
     ATB_mol = np.tile(model.ds['sigma_180_vol'].values * (1. + 0.0284) * model.ds['tau'].values,
                       (model.num_subcolumns, 1, 1))
 
@@ -301,11 +305,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         reflective_mask = np.where(np.logical_and(SR > undef_SR_thresh, reflective_mask == 1),
                                    0, reflective_mask)
 
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) > 273.15,
+        phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) > 273.15,
                               phase_mask > 0), 1, phase_mask)
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) < 233.15,
+        phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) < 233.15,
                               phase_mask > 0), 2, phase_mask)
         phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
         if convert_zeros_to_nan:
@@ -363,11 +365,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     reflective_mask = np.where(np.logical_and(SR_allhyd > undef_SR_thresh, reflective_mask == 1),
                                0, reflective_mask)
 
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) > 273.15,
+    phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) > 273.15,
                           phase_mask > 0), 1, phase_mask)
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) < 233.15,
+    phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) < 233.15,
                           phase_mask > 0), 2, phase_mask)
     phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
     if convert_zeros_to_nan:
-- 
2.43.0


From d8ac4b3b54bdbd8caf3da33aa42e544bb9333015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 29/67] fix: use the hydrometeor mass per volume in the PSD
 slope

---
 emc2/simulator/psd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index 1118f11..ad60d2e 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -136,8 +136,9 @@ def calc_mu_lambda(model, hyd_type="cl",
 
     d = 3.0
     c = np.pi * Rho_hyd / 6.0
+    # N is per unit volume, hence the mass of hydrometeors per unit volume is required
     fit_lambda = ((c * N_use.astype('float') * 1e6 * gamma(column_ds["mu"] + d + 1.)) /
-                  (q_use.astype('float') * gamma(column_ds["mu"] + 1.)))**(1 / d)
+                  (q_use.astype('float') * column_ds["rho_a"].values * gamma(column_ds["mu"] + 1.)))**(1 / d)
 
     # Eventually need to make this unit aware, pint as a dependency?
     column_ds["lambda"] = xr.DataArray(np.where(q_use > 0, fit_lambda, np.nan), dims=column_ds[q_name].dims)
-- 
2.43.0


From 9a55f70a1f2d023eda15825a4d1620966b70d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 30/67] fix: give variable densities their units in the lidar
 effective radius

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 61d98eb..24eb4ee 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -421,7 +421,7 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             rho_b = instrument.rho_i  # bulk ice
             rho_hyd = model.Rho_hyd[hyd_type]
             if rho_hyd == 'variable':
-                rho_hyd = model.ds[model.variable_density[hyd_type]].values
+                rho_hyd = model.ds[model.variable_density[hyd_type]].values * rho_b.units
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0


From e43ed753f7484eda81efc2397d80efa05138d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 31/67] fix: compute the radar moments of the NSSL scheme with
 its own fall speeds

---
 emc2/simulator/radar_moments.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 47f8bad..0a900c3 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -587,13 +587,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
         num_subcolumns = model.num_subcolumns
         rhoe = None
-        if model.mcphys_scheme == "nssl":
+        if model.mcphys_scheme.lower() == "nssl":
             rhoe = model.Rho_hyd[hyd_type]
+            calc_kws = None
             if rhoe == 'variable':
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                 v_tmp = 'variable'
             else:
-                v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe.magnitude, hyd_type)
+                rhoe = None
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -755,13 +757,15 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 beta_p = instrument.mie_table[hyd_type]["beta_p"].values
                 alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
             rhoe = None
-            if model.mcphys_scheme == "nssl":
+            if model.mcphys_scheme.lower() == "nssl":
                 rhoe = model.Rho_hyd[hyd_type]
+                calc_kws = None
                 if rhoe == 'variable':
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                     v_tmp = 'variable'
                 else:
-                    v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    v_tmp = -calc_velocity_nssl(p_diam, rhoe.magnitude, hyd_type)
+                    rhoe = None
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
@@ -1070,9 +1074,11 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
+        if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
+            v_tmp = -calc_velocity_nssl(p_diam, None, hyd_type)
+        elif mcphys_scheme.lower() in ["mg2", "mg", "morrison", "p3"]:  # power-law velocity schemes for liquid
             v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
+            v_tmp = -v_tmp.magnitude.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1121,7 +1127,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1239,7 +1245,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From 89a87cc26f01f01fe0634dbfe637542c679011f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 32/67] fix: compute the P3 interpolation weights on every
 subcolumn, also when the interpolator is cached

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 emc2/simulator/radar_moments.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 24eb4ee..5b18082 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -634,12 +634,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             calc_kws = i_calc_kws
         else:
             calc_kws = None
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 0a900c3..91d7a10 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -610,13 +610,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From a34144d8d32f73d427836f881c69b8c332426386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 33/67] fix: include the air density in the E3SMv3 P3
 normalised ice mass

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index b278ab1..3434406 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -886,9 +886,9 @@ class E3SMv1(Model):
                     self.ds["rho_r"] = xr.DataArray(
                         rho_r, dims=dims, attrs={"units": "kg/m^3", "long_name": "Rime density"})
                     self.ds["qi_norm"] = xr.DataArray(
-                        (self.ds[self.q_names_stratiform[hyd]].values /
+                        (self.ds[self.q_names_stratiform[hyd]].values * self.ds["rho_a"].values /
                         self.ds[self.strat_frac_names[hyd]].values) / self.ds[self.p3_kws["in_cld_Ni_name"]].values,
-                        dims=dims, attrs={"units": "m^3", "long_name": "Ni-normalized in-cloud ice water content"})
+                        dims=dims, attrs={"units": "kg", "long_name": "Ni-normalized in-cloud ice water content"})
 
 
             self.permute_dims_for_processing()  # Consistent dim order (time x height).
-- 
2.43.0


From 097506e8559c9b1bfc69d9a5966559da3568dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 34/67] fix: load the RL, HSRL and CALIOP scattering tables
 through their keyword interface

---
 emc2/core/instruments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/instruments.py b/emc2/core/instruments.py
index 2218e28..018425f 100644
--- a/emc2/core/instruments.py
+++ b/emc2/core/instruments.py
@@ -212,7 +212,7 @@ class RL(Instrument):
         self.eps_liq = (1.357247 + 2.4198595e-9j) ** 2
     
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class HSRL(Instrument):
@@ -243,7 +243,7 @@ class HSRL(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class MPL(HSRL):
@@ -353,4 +353,4 @@ class CALIOP(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
-- 
2.43.0


From 9fb63ed447e0a5d1557b8b99b4ddce9eb970ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 35/67] fix: accept a time range given as a tuple or list, as
 documented

---
 emc2/core/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 3434406..45f8147 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -686,7 +686,7 @@ class ModelE(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
@@ -830,7 +830,7 @@ class E3SMv1(Model):
 
             # crop specific model output time range (if requested)
             if time_range is not None:
-                if np.issubdtype(time_range.dtype, np.datetime64):
+                if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                     if time_dim == "ncol":
                         super()._crop_time_range(time_range, alter_coord="time")
                     else:
@@ -1490,7 +1490,7 @@ class DHARMA(Model):
 
         # crop specific model output time range (if requested)
         if time_range is not None:
-            if np.issubdtype(time_range.dtype, np.datetime64):
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
                 super()._crop_time_range(time_range)
             else:
                 raise RuntimeError("input time range is not in the required datetime64 data type")
-- 
2.43.0


From acf480c0f42dfc359858f0c45fdf964e5bf6e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 36/67] fix: leave the time coordinate of DHARMA output as it
 is when converting the fields to float64

---
 emc2/core/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 45f8147..07ca10d 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1480,6 +1480,8 @@ class DHARMA(Model):
         else:
             self.ds = xr.open_dataset(file_path)
             for variable in self.ds.variables.keys():
+                if np.issubdtype(self.ds[variable].dtype, np.datetime64):
+                    continue  # times are required for the cropping of a time range
                 my_attrs = self.ds[variable].attrs
                 self.ds[variable] = self.ds[variable].astype('float64')
                 self.ds[variable].attrs = my_attrs
-- 
2.43.0


From 5b66e8a39ac484dd26575c957e07626973a82b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 37/67] fix: use the effective radii of the DHARMA rimed ice
 class

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 07ca10d..d4d8ff8 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1465,8 +1465,8 @@ class DHARMA(Model):
             self.strat_frac_names.update({'pir': 'strat_pir_frac'})
             self.conv_frac_names_for_rad.update({'pir': 'conv_dat'})
             self.strat_frac_names_for_rad.update({'pir': 'strat_pir_frac'})
-            self.conv_re_fields.update({'pir': 'strat_pir_frac'})
-            self.strat_re_fields.update({'pir': 'strat_pir_frac'})
+            self.conv_re_fields.update({'pir': 'conv_dat'})
+            self.strat_re_fields.update({'pir': 're_strat_pir'})
             self.q_names_convective.update({'pir': 'conv_dat'})
             self.q_names_stratiform.update({'pir': 'qpir'})
             self.Vd_rhoa_scaling_ref['pir'] = 1.15  # Localleti and Hobbs (1974) - est. based on paper info
-- 
2.43.0


From 606a4fb50096c8eccde74bed325eca2cf9b48117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 38/67] fix: set the WRF NSSL graupel and hail densities for
 every accepted spelling of the scheme

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index d4d8ff8..a350049 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1334,7 +1334,7 @@ class WRF(Model):
 
         
         self.ds["QVAPOR"] = ds["QVAPOR"]
-        if mcphys_scheme == "nssl":
+        if mcphys_scheme.lower() == "nssl":
             x = ds["QGRAUP"] / ds["QVGRAUPEL"]
             x = np.where(np.isfinite(x), x, 900.)
             self.ds["RHO_GRAUPEL"] = xr.DataArray(x, dims=ds["QGRAUP"].dims)
-- 
2.43.0


From 53e44ee61b1382c3a3224cb99bbe7bf2d5c40a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 39/67] fix: crop the time range of WRF output with its times

---
 emc2/core/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index a350049..c1b33be 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1373,7 +1373,9 @@ class WRF(Model):
         
         # crop specific model output time range (if requested)
         if time_range is not None:
-            super()._crop_time_range(time_range)
+            self.ds = self.ds.assign_coords(XTIME=(self.time_dim, ds["XTIME"].values))
+            super()._crop_time_range(time_range, alter_coord="XTIME")
+            self.ds = self.ds.drop_vars("XTIME")
 
         # stack dimensions in the case of a regional output or squeeze lat/lon dims if exist and len==1
         super().check_and_stack_time_lat_lon(file_path=file_path)
-- 
2.43.0


From c5b9444f5c3d7072d0160274ddbf698b3ca2f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 40/67] fix: draw logarithmic colours without colour limits

---
 emc2/plotting/subcol_display.py           | 32 ++++++-----------------
 emc2/statistics_LLNL/statistical_plots.py |  8 ++----
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 99f2cc2..8d01f40 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -459,12 +459,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -588,12 +584,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -714,12 +706,8 @@ class SubcolumnDisplay(Display):
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -1154,12 +1142,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                     **kwargs)
         else:
diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 6c5901b..c9ae855 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -113,12 +113,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         date_xaxis = False
 
     if log_plot is True:
-        if 'vmin' in kwargs.keys():
-            vmin = kwargs['vmin']
-            del kwargs['vmin']
-        if 'vmax' in kwargs.keys():
-            vmax = kwargs['vmax']
-            del kwargs['vmax']
+        vmin = kwargs.pop('vmin', None)
+        vmax = kwargs.pop('vmax', None)
         mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                    **kwargs)
     else:
-- 
2.43.0


From ec73809e193571dd186dbcf8373bb5ab4f69d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 41/67] fix: do not blank cells of the array passed to the
 gridded curtains

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 8d01f40..5e9baca 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1235,7 +1235,7 @@ class SubcolumnDisplay(Display):
         x, y = np.meshgrid(x, y)
         
         #  modified    
-        var_array = np.squeeze(var_array_3D[:,:,col_index]).T
+        var_array = np.array(var_array_3D[:, :, col_index], dtype=float).T
         var_array[var_array<=0]=np.nan  # can be with blue 
                         
         if y_range is not None:
@@ -1327,7 +1327,7 @@ class SubcolumnDisplay(Display):
         x = my_ds[x_variable].values
         y = newgrid_mid*1000. # from km to m
         x, y = np.meshgrid(x, y)  
-        var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T   
+        var_array = np.array(var_array_4D[subcol_index, :, :, col_index], dtype=float).T
         var_array[var_array==0]=np.nan
                 
         if y_range is not None:
-- 
2.43.0


From efe3387306ed9e09d5b20a00096d625cc5889d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 42/67] fix: average mean profiles over every dimension but
 height, also of size one

---
 emc2/plotting/subcol_display.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 5e9baca..dfaa739 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -825,12 +825,12 @@ class SubcolumnDisplay(Display):
         if y_variable.ndim > 1:
             y_variable = np.nanmean(y_variable, axis=0)
 
-        x_variable = my_ds[variable].squeeze().values
+        x_variable = my_ds[variable].values
         x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
+        mean_axis = tuple(range(x_variable.ndim - 1))  # every dimension but height
         if Mask_array is not None:
-            Mask_array = Mask_array.squeeze()  # prevent singleton dimension issues
-            if Mask_array.shape == x_variable.shape:
-                x_variable = np.where(Mask_array <= 0, x_variable, np.nan)
+            if Mask_array.squeeze().shape == x_variable.squeeze().shape:  # prevent singleton dimension issues
+                x_variable = np.where(Mask_array.reshape(x_variable.shape) <= 0, x_variable, np.nan)
             else:
                 print("Mask dimensions " + str(Mask_array.shape) +
                       " are different than in the requested field " +
@@ -839,10 +839,7 @@ class SubcolumnDisplay(Display):
         if 'Ze' in variable:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
-                if len(x_variable.shape) == 2:
-                    x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=0)
-                elif len(x_variable.shape) == 3:
-                    x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=(0, 1))
+                x_var, x_err = self.calc_mean_and_sd(10**(x_variable / 10), use_geom_mean, axis=mean_axis)
             x_label = ''
             Xscale = 'linear'  # treating dBZ as linear for plotting
             x_fill = np.array(10 * np.log10([x_var - x_err, x_var + x_err]))
@@ -850,10 +847,7 @@ class SubcolumnDisplay(Display):
         else:
             with warnings.catch_warnings():  # Ignore "mean of slice" warning common with nan values.
                 warnings.simplefilter("ignore", category=RuntimeWarning)
-                if len(x_variable.shape) == 2:
-                    x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=0)
-                elif len(x_variable.shape) == 3:
-                    x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=(0, 1))
+                x_var, x_err = self.calc_mean_and_sd(x_variable, use_geom_mean, axis=mean_axis)
             x_fill = np.array([x_var - x_err, x_var + x_err])
             if log_plot:
                 x_label = 'log '
-- 
2.43.0


From 93a24193ca8964527bc90c14e316ad06e1f9c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 43/67] fix: accept a range of time strings in mean profiles

---
 emc2/plotting/subcol_display.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index dfaa739..4ace81d 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -807,6 +807,8 @@ class SubcolumnDisplay(Display):
         if time is not None:
             if np.logical_or(type(time) is tuple, type(time) is str):
                 time = np.array(time)
+            if np.asarray(time).dtype.kind in 'US':
+                time = np.array(time, dtype='datetime64[ns]')
             if time.size == 1:
                 my_ds = self._ds[ds_name].sel({x_variable: time}, method='nearest')
             else:
-- 
2.43.0


From bd780d1e64be3991de45afb32123740a70c5c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 44/67] fix: draw mixing ratios at their pressure in pressure
 coordinates

---
 emc2/plotting/subcol_display.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 4ace81d..bfd3a7d 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1098,7 +1098,10 @@ class SubcolumnDisplay(Display):
             y_variable = self.model.z_field
 
         x_label = 'Time [UTC]'
-        y_label ='Height [km]' # Jingjing changed
+        if pressure_coords:
+            y_label = self.set_axis_label(my_ds, y_variable)
+        else:
+            y_label = 'Height [km]'
 
         if pressure_coords:
             x = my_ds[x_variable].values
@@ -1113,7 +1116,8 @@ class SubcolumnDisplay(Display):
             p = my_ds[self.model.height_dim].values
             x, p = np.meshgrid(x, p)
             
-        y=y / 1000. # to km
+        if not pressure_coords:
+            y = y / 1000.  # to km
     
         var_array = my_ds[variable].values.T * 1000. # unit change to g /kg    
         
-- 
2.43.0


From 7c2344150ef0339866f2c81a68bb22110b1e5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 45/67] fix: return the axes of instrument mean profiles

---
 emc2/plotting/subcol_display.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index bfd3a7d..37a80e7 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1035,7 +1035,8 @@ class SubcolumnDisplay(Display):
         else:
             self.axes[subplot_index].set_xlim(x_lim)
 
-    
+        return self.axes[subplot_index]
+
     def plot_column_input_q_timeseries(self, variable, pressure_coords=True, title=None,
                                     subplot_index=(0, ), colorbar=True, cbar_label=None,
                                     log_plot=False, Mask_array=None, hatched_mask=False,
-- 
2.43.0


From 1024464a7abf8950377df64c9a205bce83c492e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 46/67] fix: draw mean profiles that have no finite value

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 37a80e7..f0595da 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -896,7 +896,7 @@ class SubcolumnDisplay(Display):
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
-        else:
+        elif np.all(np.isfinite(x_lim)):
             self.axes[subplot_index].set_xlim(x_lim)
 
         return self.axes[subplot_index]
@@ -1032,7 +1032,7 @@ class SubcolumnDisplay(Display):
             self.axes[subplot_index].set_ylim(y_range)
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
-        else:
+        elif np.all(np.isfinite(x_lim)):
             self.axes[subplot_index].set_xlim(x_lim)
 
         return self.axes[subplot_index]
-- 
2.43.0


From b2fd2304147183d106114e871fcc6fd31dbe3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 47/67] fix: honour the colour limits of the statistical
 figures

---
 emc2/statistics_LLNL/statistical_plots.py | 54 ++++-------------------
 1 file changed, 9 insertions(+), 45 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index c9ae855..a5499cb 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -209,17 +209,10 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
     else:
         cmap = kwargs.pop('cmap')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(Ze_EDGES, levStat_km_add0,
-                       cfaddbz35_cal_alltime, cmap=cmap, vmin=0.0, vmax=0.2,
+                       cfaddbz35_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
     ax.set_xlabel('Ze bins [dBZ]')
     ax.set_ylabel('Height [km]')
@@ -295,15 +288,8 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
         cmap = kwargs.pop('cmap')
 
     SR_BINS_index = np.arange(len(SR_EDGES))
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(SR_BINS_index, levStat_km_add0,
                        cfadSR_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
@@ -405,19 +391,10 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
 
     textx, texty = 0.04, 1.03
     ifig = 0
-    if not 'vmin' in list(kwargs.keys()):
-        vmin = -50.0
-    else:
-        vmin = kwargs.pop('vmin')
-
-    if not 'vmax' in list(kwargs.keys()):
-        vmax = 10.0
-    else:
-        vmax = kwargs.pop('vmin')    
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     Ze_att_tot_plt[Ze_att_tot_plt <= -1.e+20] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_att_tot_plt, vmin=-50, vmax=10, cmap=cmap, **kwargs)
+                             Ze_att_tot_plt, vmin=vmin_radar, vmax=vmax_radar, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -434,14 +411,12 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    vmin = 1e-8
-    vmax = 1e-3
 
     ifig = 1
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     beta_att_tot_plt[beta_att_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin, vmax=vmax), 
+                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar), 
                              cmap=cmap)
     ax[ifig].text(textx, texty, 'Lidar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
@@ -560,14 +535,6 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-8
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-3
-    else:
-        vmin = kwargs.pop('vmax')    
 
     ifig = 1
     beta_tot_plt[beta_tot_plt <= -1.e+40] = np.nan
@@ -672,10 +639,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
         vmin = 0
     else:
         vmin = kwargs.pop('vmin')
-    if not 'vmax' in kwargs.keys():
-        vmax = 0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmax = kwargs.pop('vmax', None)
 
     fontsize_input = 12
     plt.rcParams.update({'font.size': 12})
@@ -1029,7 +993,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     plot_var1[plot_var1 < 0] = np.nan
     c1 = ax[ifig].pcolormesh(
         input_time_2d_long, input_height_half_long / 1000.,
-        plot_var1*1000., vmin=0, vmax=0.1, cmap=cmap)
+        plot_var1*1000., vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, '(b) Precipitation',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
-- 
2.43.0


From 8fa5d8ad6b230666b916d5e486b5ec09707eab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 48/67] fix: do not blank values of the model in the
 all-subcolumn figures

---
 emc2/statistics_LLNL/statistical_plots.py | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index a5499cb..613a171 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -365,9 +365,9 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
             input_height_half_long[
                 j, subcolumn_num * (i):subcolumn_num*(i+1) + 1] = input_height_half[i, j]
 
-    Ze_att_tot = model.ds['sub_col_Ze_att_tot'][:, :, :, col_index].values
+    Ze_att_tot = model.ds['sub_col_Ze_att_tot'][:, :, :, col_index].values.copy()
     beta_att_tot = model.ds['sub_col_beta_att_tot'][:,
-                                                    :, :, col_index].values
+                                                    :, :, col_index].values.copy()
 
     Ze_att_tot_plt = np.transpose(
         Ze_att_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
@@ -494,8 +494,8 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
             input_height_half_long[
                 j, subcolumn_num * (i):subcolumn_num*(i+1) + 1] = input_height_half[i, j]
 
-    Ze_tot = model.ds['sub_col_Ze_tot'][:, :, :, col_index].values
-    beta_tot = model.ds['sub_col_beta_p_tot'][:, :, :, col_index].values
+    Ze_tot = model.ds['sub_col_Ze_tot'][:, :, :, col_index].values.copy()
+    beta_tot = model.ds['sub_col_beta_p_tot'][:, :, :, col_index].values.copy()
     Ze_tot_plt = np.transpose(Ze_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
     beta_tot_plt = np.transpose(beta_tot, axes=(2, 1, 0)).reshape(lev_num, -1)
     x_dateformat = "%b%d-%H"
@@ -721,22 +721,22 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
                 j, subcolumn_num * (i):subcolumn_num*(i+1)+1] = input_height_half[i, j]
 
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_cl_plt = np.transpose(
         strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_ci_plt = np.transpose(
         strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_pl_plt = np.transpose(
         strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_pi_plt = np.transpose(
         strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
 
@@ -920,22 +920,22 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
                 j, subcolumn_num * (i):subcolumn_num*(i+1)+1] = input_height_half[i, j]
 
     strat_q_subcolumns_cl = model.ds['strat_q_subcolumns_cl'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_cl_plt = np.transpose(
         strat_q_subcolumns_cl, axes=(2, 1, 0)).reshape(lev_num, -1)
 
     strat_q_subcolumns_ci = model.ds['strat_q_subcolumns_ci'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_ci_plt = np.transpose(
         strat_q_subcolumns_ci, axes=(2, 1, 0)).reshape(lev_num, -1)
 
     strat_q_subcolumns_pl = model.ds['strat_q_subcolumns_pl'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_pl_plt = np.transpose(
         strat_q_subcolumns_pl, axes=(2, 1, 0)).reshape(lev_num, -1)
 
     strat_q_subcolumns_pi = model.ds['strat_q_subcolumns_pi'][
-        :, :, :, col_index].values
+        :, :, :, col_index].values.copy()
     strat_q_subcolumns_pi_plt = np.transpose(
         strat_q_subcolumns_pi, axes=(2, 1, 0)).reshape(lev_num, -1)
 
-- 
2.43.0


From 93382a235b67cd1ca36b5a251fbec2be09928cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 49/67] fix: draw frequency diagrams at the heights of their
 grid

---
 emc2/statistics_LLNL/statistical_plots.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 613a171..c48ea57 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -177,7 +177,9 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
 
     # height
     levStat_km = copy.deepcopy(newgrid_mid)
-    levStat_km_add0 = np.arange(len(levStat_km) + 1) * 0.48
+    half_km = np.diff(levStat_km) / 2.
+    levStat_km_add0 = np.concatenate(
+        ([levStat_km[0] - half_km[0]], levStat_km[:-1] + half_km, [levStat_km[-1] + half_km[-1]]))
 
     fig, ax = plt.subplots(nrows=1, ncols=1, figsize=(5, 8))
     clb_dy, clb_ddy = 0.15, 0.03
@@ -257,7 +259,9 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
 
     # height
     levStat_km = copy.deepcopy(newgrid_mid)
-    levStat_km_add0 = np.arange(len(levStat_km) + 1) * 0.48
+    half_km = np.diff(levStat_km) / 2.
+    levStat_km_add0 = np.concatenate(
+        ([levStat_km[0] - half_km[0]], levStat_km[:-1] + half_km, [levStat_km[-1] + half_km[-1]]))
 
     fig, ax = plt.subplots(nrows=1, ncols=1, figsize=(5, 8))
     clb_dy, clb_ddy = 0.15, 0.03
-- 
2.43.0


From 758aa4846775e7fb4d38c1c7e716378a3b5509ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 50/67] fix: let the mixing ratio figure of the statistics read
 the displayed dataset

---
 emc2/statistics_LLNL/statistical_plots.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index c48ea57..c210bdd 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -59,11 +59,11 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
     cbar: Matplotlib axes handle
         The matplotlib colorbar handle of the plot.
     """
-    ds_name = [x for x in self._obj.keys()][0]
+    ds_name = [x for x in self._ds.keys()][0]
     if len(self.model.ds[variable].dims) == 3:
-        my_ds = self._obj[ds_name].sel(subcolumn=column_no)
+        my_ds = self._ds[ds_name].sel(subcolumn=column_no)
     else:
-        my_ds = self._obj[ds_name]
+        my_ds = self._ds[ds_name]
     x_variable = self.model.time_dim
     if pressure_coords:
         y_variable = self.model.height_dim
@@ -72,7 +72,7 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
 
     x_label = 'Time [UTC]'
     # y_label = self.set_axis_label(my_ds, y_variable)
-    y_label = 'Height [km]'  # Jingjing changed
+    y_label = self.set_axis_label(my_ds, y_variable) if pressure_coords else 'Height [km]'
 
     if pressure_coords:
         x = my_ds[x_variable].values
@@ -87,7 +87,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         p = my_ds[self.model.height_dim].values
         x, p = np.meshgrid(x, p)
 
-    y = y / 1000.  # to km
+    if not pressure_coords:
+        y = y / 1000.  # to km
 
     # modified
     var_array = my_ds[variable].values.T * 1000.  # unit change to g /kg
-- 
2.43.0


From 93ee3de4881ab8b8a83580a8918e3d8fb0dc2e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 51/67] fix: let displays switch to other coordinates and
 models

---
 emc2/plotting/subcol_display.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index f0595da..2478348 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -134,10 +134,14 @@ class SubcolumnDisplay(Display):
             If True, create a deep copy of the dataset in case of cropping.
         """
         if not np.logical_and(lat_sel is None, lon_sel is None):
+            previous = getattr(self, 'cropped_lat_lon', [None, None])
+            lat_sel = previous[0] if lat_sel is None else lat_sel
+            lon_sel = previous[1] if lon_sel is None else lon_sel
             self.cropped_lat_lon = [lat_sel, lon_sel]
-            if np.any([x in self.model.ds.dims for x in [self.model.lat_dim, self.model.lon_dim]]):
-                if deep:
-                    self.model.ds = copy.deepcopy(model.ds)
+            if np.any([x in model.ds.dims for x in [model.lat_dim, model.lon_dim]]):
+                if self.model is model and hasattr(self, '_ds'):
+                    self.model = copy.deepcopy(model)  # keep the model passed in uncropped
+                self.model.ds = copy.deepcopy(model.ds) if deep else model.ds
                 if self.model.lat_dim in self.model.ds.dims:
                     if isinstance(lat_sel, float):
                         print("cropping lat dim (lat requested = %.2f)" % lat_sel)
@@ -152,6 +156,9 @@ class SubcolumnDisplay(Display):
                     elif isinstance(lon_sel, int):
                         print("cropping lon dim (lon index requested = %d)" % lon_sel)
                         self.model.ds = self.model.ds.isel({self.model.lon_dim: lon_sel})
+                if hasattr(self, '_ds'):  # replacing the data of an existing display
+                    for ds_name in self._ds.keys():
+                        self._ds[ds_name] = self.model.ds
         else:
             print("no alternative lat and lon coords provided - keeping processed dataset as is.")
 
@@ -167,7 +174,7 @@ class SubcolumnDisplay(Display):
             A model containing the subcolumn data to relpace the current model data.
 
         """
-        self._ds.pop(self.model.model_name)
+        self._ds.clear()
         self.model = model
         self._ds.update({self.model.model_name: self.model.ds})
 
-- 
2.43.0


From 240a8498b51ebabbb8c945b80ce453d1285c83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 52/67] fix: hatch only the masked cells

---
 emc2/plotting/subcol_display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 2478348..22f04e0 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -478,7 +478,7 @@ class SubcolumnDisplay(Display):
         else:
             hatch = '\\/...'
         if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -603,7 +603,7 @@ class SubcolumnDisplay(Display):
         else:
             hatch = '\\/...'
         if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
@@ -725,7 +725,7 @@ class SubcolumnDisplay(Display):
         else:
             hatch = '\\/...'
         if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
         if title is None:
             time_title = ""
@@ -1162,7 +1162,7 @@ class SubcolumnDisplay(Display):
         else:
             hatch = '\\/...'
         if hatched_mask:
-            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+            self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                             hatch=hatch, alpha=0.)
 
         if date_xaxis:
-- 
2.43.0


From dce287cd4726f617fabd952936a6f8f57043c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 53/67] fix: keep missing values out of the geometric mean
 profiles

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 22f04e0..53e259b 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -835,7 +835,7 @@ class SubcolumnDisplay(Display):
             y_variable = np.nanmean(y_variable, axis=0)
 
         x_variable = my_ds[variable].values
-        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
+        x_variable = np.where(np.isfinite(x_variable), x_variable, np.nan)
         mean_axis = tuple(range(x_variable.ndim - 1))  # every dimension but height
         if Mask_array is not None:
             if Mask_array.squeeze().shape == x_variable.squeeze().shape:  # prevent singleton dimension issues
@@ -981,7 +981,7 @@ class SubcolumnDisplay(Display):
         else:
             time_ind = np.logical_and(my_ds.time >= time_range[0], my_ds.time < time_range[1])
             x_variable = my_ds[variable].isel(time=time_ind)
-        x_variable = np.ma.masked_where(~np.isfinite(x_variable), x_variable)
+        x_variable = np.where(np.isfinite(x_variable), x_variable, np.nan)
         if Mask_array is not None:
             if Mask_array.shape == x_variable.shape:
                 x_variable = np.where(Mask_array <= 0, x_variable, np.nan)
-- 
2.43.0


From 2854328449a955464393f940c89d135f1bd0588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 54/67] fix: hatch only the masked cells (statistics)

---
 emc2/statistics_LLNL/statistical_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index c210bdd..f95f1dc 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -126,7 +126,7 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
     else:
         hatch = '\\/...'
     if hatched_mask:
-        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array == 0, np.ones_like(var_array)),
+        self.axes[subplot_index].pcolor(x, y, np.ma.masked_where(Mask_array <= 0, np.ones_like(var_array)),
                                         hatch=hatch, alpha=0.)
 
     if date_xaxis:
-- 
2.43.0


From ca74eaca16557c6ed48305828fdecaf116193fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 55/67] fix: draw cloud and precipitation mixing ratios without
 ACT's colormap

---
 emc2/statistics_LLNL/statistical_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index f95f1dc..27b0574 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -954,7 +954,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
                         right=0.9, wspace=0.1, hspace=0.2)
     ax = axes.flatten()
     if not 'cmap' in kwargs.keys():
-        cmap = 'act_HomeyerRainbow'
+        cmap = 'act_HomeyerRainbow' if 'act_HomeyerRainbow' in plt.colormaps() else 'Spectral_r'
     else:
         cmap = kwargs.pop('cmap')
 
-- 
2.43.0


From 2699e0a6500d726d3f6b6fe6063d19f3ebfd6a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:31 +0000
Subject: [PATCH 56/67] fix: water scattering: backscatter and scattering cross
 sections were swapped

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 27a4a2f..5b61cee 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -88,8 +88,8 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
     my_dict['alpha_p'] = my_dict['ext_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['beta_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['scat_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['beta_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
-- 
2.43.0


From 3703a07af8a530d963c9c5b29d32ccd6b103e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 57/67] fix: size parameter of the computed scattering tables
 was 1000 times too large

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 5b61cee..fd09e53 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -92,7 +92,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
@@ -194,7 +194,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
-- 
2.43.0


From 42be2ac2585ab97bbc4f24ee86d8bbeb6c3987ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 58/67] fix: compute scattering properties at the diameters
 passed, not at resampled ones

---
 emc2/scattering/mie_scattering.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index fd09e53..cf96573 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -2,7 +2,7 @@ import numpy as np
 import xarray as xr
 
 try:
-    from PyMieScatt import MieQ_withDiameterRange
+    from PyMieScatt import AutoMieQ
     PYMIESCAT_AVAILABLE = True
 except ModuleNotFoundError:
     PYMIESCAT_AVAILABLE = False
@@ -45,6 +45,15 @@ def brandes(D_eq):
         D_eq, 4
     )
 
+
+def _mie_efficiencies(m, wavelength, diams, nMedium):
+    """
+    Mie efficiencies at each of the given diameters (wavelength and diameters in nm).
+    """
+    q = [AutoMieQ(m / nMedium, wavelength / nMedium, diam) for diam in diams]
+    return tuple(np.array(x) for x in zip(*q))
+
+
 def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     """
     Calculate the scattering properties for a range of water spheres.
@@ -81,9 +90,9 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     m = calc_microwave_ref_index(wavelength, temperature)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15)**2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium, nd=len(diams),
-        diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams = np.asarray(diams, dtype=float) * 1000.
+    qext, qsca, qabs, g, qpr, qback, qratio = _mie_efficiencies(
+        m, wavelength * 1e7, diams, nMedium)
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
@@ -183,9 +192,9 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     m = calc_microwave_ref_index_ice(wavelength, temperature, rho_d)
     nMedium = 1 + 1e-6 * (77.6 * pressure /
                           (temperature + 273.15 + 3.75e-5 * pressure / (temperature + 273.15) ** 2))
-    diams, qext, qsca, qabs, g, qpr, qback, qratio = MieQ_withDiameterRange(
-        m, wavelength * 1e7, nMedium=nMedium,
-        nd=len(diams), diameterRange=(diams.min() * 1000., diams.max() * 1000.))
+    diams = np.asarray(diams, dtype=float) * 1000.
+    qext, qsca, qabs, g, qpr, qback, qratio = _mie_efficiencies(
+        m, wavelength * 1e7, diams, nMedium)
 
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
-- 
2.43.0


From 70cb80babeb8d43dcddec0a5d09e07f04cb4dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 59/67] fix: return scattering properties as variables over the
 particles, not as coordinates

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index cf96573..7cbd4e6 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -104,7 +104,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
-    my_df = xr.Dataset(my_dict)
+    my_df = xr.Dataset({name: ('index', values) for name, values in my_dict.items()})
 
     my_df["wavelength"].attrs["units"] = "microns"
     my_df["wavelength"].attrs["long_name"] = "Wavelength of beam"
@@ -206,7 +206,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
-    my_df = xr.Dataset(my_dict)
+    my_df = xr.Dataset({name: ('index', values) for name, values in my_dict.items()})
 
     my_df["wavelength"].attrs["units"] = "microns"
     my_df["wavelength"].attrs["long_name"] = "Wavelength of beam"
-- 
2.43.0


From efccb12164f3ee1ea675230a83766f5cdbfaf2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 60/67] fix: water scattering takes particle diameters in
 microns (docstring)

---
 emc2/scattering/mie_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 7cbd4e6..f75d4a0 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -61,7 +61,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     Parameters
     ----------
     diams: array floats
-        Particle diameter in meters
+        Particle diameter in microns
     wavelength: float
         Wavelength in cm
     temperature: float
-- 
2.43.0


From f4520aa34755aa41cba5cfb2339ad5d71805b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 61/67] fix: scattering cross sections are in square meters,
 label them so

---
 emc2/io/load_mie_file.py          | 2 +-
 emc2/io/load_scat_file.py         | 2 +-
 emc2/scattering/mie_scattering.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/io/load_mie_file.py b/emc2/io/load_mie_file.py
index 132ee6e..46fe557 100644
--- a/emc2/io/load_mie_file.py
+++ b/emc2/io/load_mie_file.py
@@ -52,7 +52,7 @@ def load_mie_file(filename):
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
diff --git a/emc2/io/load_scat_file.py b/emc2/io/load_scat_file.py
index 0e5cd62..1e4cab6 100644
--- a/emc2/io/load_scat_file.py
+++ b/emc2/io/load_scat_file.py
@@ -88,7 +88,7 @@ def load_scat_file(filename, is_radar, param_type="C6"):
     my_df["V"].attrs["long_name"] = "Particle volume"
     my_df['V'].attrs["standard_name"] = "Volume"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index f75d4a0..f6daf08 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -230,7 +230,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Forward scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
-- 
2.43.0


From 6ece866c4c2520c2e515f25781e4e94b3bf9804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 62/67] fix: labels of extinction and backscatter cross
 sections were swapped

---
 emc2/scattering/mie_scattering.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index f6daf08..5a3e4b2 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -133,12 +133,12 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
@@ -235,12 +235,12 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
-- 
2.43.0


From 5525a78888b0b1e49f88418cde1f409bd6394f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 63/67] fix: mass extinction cross section of air was off by
 1e4 and mislabelled

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 1a8e291..f6ce117 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -147,7 +147,7 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
     sigma = sigma * 1e-4
     N_s = N_s / 1e-6
     beta = beta / 1e-2
-    kappa = kappa * 1e-3 / 1e-6
+    kappa = kappa * 1e-4 / 1e-3
     sigma_180 = sigma_180 * 1e-4
     sigma_180_vol = sigma_180_vol / 1e-2
 
@@ -188,7 +188,7 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
 
     model.ds["kappa"] = xr.DataArray(kappa, dims=my_dims)
     model.ds["kappa"].attrs["long_name"] = "Mass extinction cross section per molecule"
-    model.ds["kappa"].attrs["units"] = r"$kg\ m^{-3}$"
+    model.ds["kappa"].attrs["units"] = r"$m^2\ kg^{-1}$"
 
     model.ds["N_s"] = xr.DataArray(N_s, dims=my_dims)
     model.ds["N_s"].attrs["long_name"] = "Number density profile"
-- 
2.43.0


From 253be855c08a5bc1ce5f626c7952a182530d4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 64/67] fix: layer thickness above the top model level in the
 bulk calculators was negative

---
 emc2/simulator/lidar_moments.py | 5 +++--
 emc2/simulator/radar_moments.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 5b18082..d455334 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -363,9 +363,10 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
     model.ds['sub_col_OD_tot_%s' % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
-    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
+    # the layer above the top level is taken to be as thick (in pressure and height) as the layer below it
+    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])) / instrument.g,
                       (model.num_subcolumns, 1, 1))
-    dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))
+    dz = np.tile(np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]), (model.num_subcolumns, 1, 1))
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
         if hyd_type[-1] == 'l':  # liquid hydrometeors
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 91d7a10..3e55853 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -305,11 +305,12 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
     hyd_ext = np.zeros(Dims)
+    # the layer above the top level is taken to be as thick (in pressure and height) as the layer below it
     rhoa_dz = np.tile(
-        np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
+        np.abs(np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])) / instrument.g,
         (n_subcolumns, 1, 1))
     dz = np.tile(
-        np.diff(z_values, axis=1, append=0.), (n_subcolumns, 1, 1))
+        np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]), (n_subcolumns, 1, 1))
 
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
-- 
2.43.0


From f99140d3995eca8125741915ec24a639670873f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 65/67] fix: COSP emulator and mass phase ratio left out ice
 classes other than ci and pi

---
 emc2/simulator/classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 6859b80..ecbc3a5 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -237,7 +237,8 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         atb_cross_coeff = {'liq': [0.4099, 0.009, 0], 'ice': [0.2904, 0]}
 
     if inc_precip_hyd_atb:
-        hyd_classes = {"liq": ["cl", "pl"], "ice": ["ci", "pi"]}
+        hyd_classes = {"liq": ["cl", "pl"],
+                       "ice": ["ci"] + [x for x in hyd_types if x not in ["cl", "pl", "ci"]]}
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
@@ -439,7 +440,7 @@ def calculate_phase_ratio(model, variable, mask_class, mask_allhyd=None, mass_pr
 
     if mass_pr is True:
         liq_classes = [x for x in ["cl", "pl"] if x in hyd_types]
-        ice_classes = [x for x in ["ci", "pi"] if x in hyd_types]
+        ice_classes = [x for x in hyd_types if x not in ["cl", "pl"]]
         if mpr_subcolmod is True:
             mass_subcol_liq = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
             mass_subcol_ice = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
-- 
2.43.0


From 47681592021c3411206e6d83316a60a435122391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 66/67] fix: saved height-frequency diagrams lacked their radar
 bins

---
 emc2/statistics_LLNL/statistical_output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index ee6899c..912e39b 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -30,8 +30,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
         output file name
     """
 
-    model_ds_add = model.ds
-    model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
+    model_ds_add = model.ds.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
     model_ds_add["CFAD_Radar"] = (['cosp_ht', 'cosp_ze'], cfaddbz35_cal_alltime)
     model_ds_add["CFAD_SR"] = (['cosp_ht', 'cosp_sr'], cfadSR_cal_alltime)
     print('saved CFADs')
-- 
2.43.0


From 6bc24373c1363a871446bb9bc463106eec49775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 67/67] fix: time range was ignored when loading a processed
 E3SM or CESM2 dataset

---
 emc2/core/model.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index c1b33be..8e73976 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -828,15 +828,17 @@ class E3SMv1(Model):
                                            dtype='datetime64')
                 self.ds = self.ds.assign_coords(time=('ncol', time_datetime64))  # add additional time coords
 
-            # crop specific model output time range (if requested)
-            if time_range is not None:
-                if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
-                    if time_dim == "ncol":
-                        super()._crop_time_range(time_range, alter_coord="time")
-                    else:
-                        super()._crop_time_range(time_range)
+        # crop specific model output time range (if requested)
+        if time_range is not None:
+            if np.issubdtype(np.asarray(time_range).dtype, np.datetime64):
+                if time_dim == "ncol":
+                    super()._crop_time_range(time_range, alter_coord="time")
                 else:
-                    raise RuntimeError("input time range is not in the required datetime64 data type")
+                    super()._crop_time_range(time_range)
+            else:
+                raise RuntimeError("input time range is not in the required datetime64 data type")
+
+        if not load_processed:
 
             # Flip height coordinates in data arrays (to descending pressure levels / ascending height)
             self.ds = self.ds.assign_coords({self.height_dim: np.flip(self.ds[self.height_dim].values)})
-- 
2.43.0

