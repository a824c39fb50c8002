From b121b608f1d8d4f1692269371812a675792ec969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 01/66] fix: keep liquid water of all classes in empirical
 radar attenuation

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..f939fff 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -193,9 +193,9 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
+    WC_tot = np.zeros(Dims)
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From 54078c9d69960f33b6d53daacb08a6238bf9602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 02/66] fix: accumulate microphysics-logic radar totals and
 attenuation over all classes in any order

---
 emc2/simulator/radar_moments.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index f939fff..b3aecc9 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,6 +539,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
@@ -657,11 +658,11 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -704,7 +705,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
@@ -804,7 +805,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From 86b8f68266910d2b9dc31db50531cd13ce4450ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 03/66] fix: use each class's own air density correction in the
 total spectral width

---
 emc2/simulator/radar_moments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index b3aecc9..b83cd76 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -774,6 +774,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = model.vel_param_a[hyd_type] * p_diam ** model.vel_param_b[hyd_type]
                 v_tmp = -v_tmp.magnitude
 
+            # Microphysics scheme-specific air density correction of terminal velocity
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)  # by default, no correction is applied
+            if hyd_type in model.Vd_rhoa_scaling_ref.keys():
+                if model.Vd_rhoa_scaling_ref[hyd_type] is not None:
+                    rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
+
             frac_names = "strat_frac_subcolumns_%s" % hyd_type
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
-- 
2.43.0


From 85e66e771deeaff964b6c7634eb9c02ff5994417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 04/66] fix: define the P3 arguments for NSSL classes in the
 radar microphysics approach

---
 emc2/simulator/radar_moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index b83cd76..2d19386 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -592,6 +592,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
         num_subcolumns = model.num_subcolumns
         rhoe = None
         if model.mcphys_scheme == "nssl":
+            calc_kws = None
             rhoe = model.Rho_hyd[hyd_type]
             if rhoe == 'variable':
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
@@ -760,6 +761,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 alpha_p = instrument.mie_table[hyd_type]["alpha_p"].values
             rhoe = None
             if model.mcphys_scheme == "nssl":
+                calc_kws = None
                 rhoe = model.Rho_hyd[hyd_type]
                 if rhoe == 'variable':
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
-- 
2.43.0


From 8df788464acae0549414bac6de4a5d3e2924b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 05/66] fix: pass particle size and density to the NSSL fall
 speed in order, downward negative

---
 emc2/simulator/radar_moments.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 2d19386..cb38b8f 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -598,7 +598,8 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                 v_tmp = 'variable'
             else:
-                v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                rhoe = None  # constant density: no bin-dependent fall speed
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -767,7 +768,8 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                     v_tmp = 'variable'
                 else:
-                    v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    v_tmp = -calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    rhoe = None  # constant density: no bin-dependent fall speed
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
@@ -1128,7 +1130,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1246,7 +1248,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From b5efbc438034ce3ef8bdbebe728419e74ffdad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 06/66] fix: gather the P3 interpolation arguments on every
 call, not only when interpolators are built

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 emc2/simulator/radar_moments.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..9ae8a05 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -635,12 +635,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             calc_kws = i_calc_kws
         else:
             calc_kws = None
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index cb38b8f..efc59cc 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -614,13 +614,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From 2619d1c04049eaad9f952e7a5d34d9cb6c07f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 07/66] fix: give convective fractions a subcolumn dimension
 when the subcolumn generator is off

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..f11171c 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]],
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From 5a79eae667ea68c83bf42dfa8178cc357ec5fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 08/66] fix: the top level has no cloud above it in the
 stratiform overlap

---
 emc2/simulator/subcolumn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index f11171c..3424c1d 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -175,6 +175,7 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
 
         is_cloud = np.logical_or(data_frac1 > 0, data_frac2 > 0)
         is_cloud_one_above = np.roll(is_cloud, -1, axis=1)
+        is_cloud_one_above[:, -1] = False
         overlapping_cloud = np.logical_and(is_cloud, is_cloud_one_above)
 
         cld_2_assigns = np.stack([data_frac1, data_frac2], axis=0)
-- 
2.43.0


From 1ea4fe6b34315f68253ab2ef116334d83cd02e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 09/66] fix: process every time step once and in order in the
 chunked distribution of cloud liquid

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 3424c1d..090e3eb 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -545,16 +545,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From 48e36bfe43be9ee5f6a6b466c5547821b10105a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 10/66] fix: number concentration only where the class is
 present when the subcolumn generator is off

---
 emc2/simulator/subcolumn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 090e3eb..121c126 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -518,8 +518,7 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
             dims=model.ds[frac_fieldname].dims)
         if not is_conv:
             model.ds[n_name] = xr.DataArray(
-                np.tile(model.ds[model.N_field[hyd_type]].astype('float64').values / data_frac, (1, 1, 1)),
-                                            dims=model.ds[frac_fieldname].dims)
+                np.where(np.isnan(N_profs), 0, N_profs), dims=model.ds[frac_fieldname].dims)
     else:
         if qc_flag:
 
-- 
2.43.0


From ffc6e45d7c351ea08bece35b9bf799944b1e688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 11/66] fix: allocate every precipitating class of the model in
 convective subcolumns

---
 emc2/simulator/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..473e101 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -144,7 +144,8 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
                 precip_types=precip_types)
         if model.process_conv:
             model = set_precip_sub_col_frac(
-                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk)
+                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk,
+                precip_types=precip_types)
         for hyd_type in hydrometeor_classes:
             if hyd_type != 'cl':
                 model = set_q_n(
-- 
2.43.0


From b6699c3d18953854529523ab5322fbc37f75c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 12/66] fix: honour ref_rng in make_simulated_data

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 473e101..06a01b4 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -172,7 +172,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From 8e73e7600ab42376a928c0958e3f692fcc629676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 13/66] fix: format the missing-prerequisite message of
 set_precip_sub_col_frac

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 121c126..0964730 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -347,12 +347,12 @@ def set_precip_sub_col_frac(model, is_conv, N_columns=None, use_rad_logic=True,
     else:
         full_overcast_pl_pi = 0
         if in_prof_cloud_name_liq not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
+            raise KeyError("%s is not a variable in the model object. Please ensure that you have "
                            "generated the cloud particle subcolumns before running this routine." %
                            in_prof_cloud_name_liq)
 
         if in_prof_cloud_name_ice not in model.ds.variables.keys():
-            raise KeyError("%s is not a variable in the model object. Please ensure that you have" +
+            raise KeyError("%s is not a variable in the model object. Please ensure that you have "
                            "generated the cloud particle subcolumns before running this routine." %
                            in_prof_cloud_name_ice)
 
-- 
2.43.0


From 2da2d832f0413b2d349478e48db2391b33077c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 14/66] fix: depolarisation ratio of a class list without the
 model's first class

---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 9ae8a05..aa63220 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -114,8 +114,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
     else:
         OD_str = ("layer top", "from TOA")
 
-    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
-    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
+    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
+    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
     for cloud_str in cld_classes:
         numerator = 0.
         denominator = 0.
-- 
2.43.0


From 070c3b90be97b49d24188f3965af04f541bd0777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 15/66] fix: use the LDR_per_hyd argument of calc_LDR_and_ext

---
 emc2/simulator/lidar_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index aa63220..b920eb2 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -122,7 +122,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * \
+                getattr(LDR_per_hyd[hyd_type], "magnitude", LDR_per_hyd[hyd_type])
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From d7301bfd95a74ea16ae9cf6b32a9a4b476503ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 16/66] fix: start lidar microphysics totals from zero on every
 call

---
 emc2/simulator/lidar_moments.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index b920eb2..164651d 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -580,18 +580,17 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+    model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From 546e6f46f9111484be08a13ad5b72377e0a06fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 17/66] fix: start radar microphysics totals from zero on every
 call

---
 emc2/simulator/radar_moments.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index efc59cc..e00641b 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -540,20 +540,18 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
     hyd_ext = np.zeros(Dims)
+    model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_Vd_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From 418d4027c9d62e032db36cc5e35b71de3d829512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 18/66] fix: absence of one class does not remove radar
 attenuation by the others (bulk tables)

---
 emc2/simulator/radar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index e00641b..b95b2f4 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,7 +443,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
-- 
2.43.0


From 1e78c8e3f954e1167ba89b099c5fc636211e4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 19/66] fix: molecular transmittance follows OD_from_sfc in
 lidar moments

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 164651d..e974b67 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -804,7 +804,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From c2a3b8a9b86781852eff32409e7ed4502500f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 20/66] fix: fixed droplet dispersion applies to ModelE (its
 model_name is ModelE3)

---
 emc2/simulator/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/psd.py b/emc2/simulator/psd.py
index c310935..1118f11 100644
--- a/emc2/simulator/psd.py
+++ b/emc2/simulator/psd.py
@@ -99,7 +99,7 @@ def calc_mu_lambda(model, hyd_type="cl",
     column_ds = model.ds
 
     if calc_dispersion is None:
-        if model.model_name in ["ModelE", "DHARMA"]:
+        if model.model_name in ["ModelE", "ModelE3", "DHARMA"]:
             calc_dispersion = False
         else:
             calc_dispersion = True
-- 
2.43.0


From 36a81e2b993cd2130f42b050bfc8312e9884c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 21/66] fix: ext_OD given to make_simulated_data reaches the
 lidar phase classification

---
 emc2/simulator/classification.py | 10 ++++++++--
 emc2/simulator/main.py           |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 76d1037..d12ce73 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -5,7 +5,7 @@ from ..core import Instrument, Model
 
 
 def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
-                         convert_zeros_to_nan=False, remove_sub_detect=True):
+                         convert_zeros_to_nan=False, remove_sub_detect=True, ext_OD=None):
     """
     Phase classification based on fixed thresholds of a lidar's LDR and
     tot beta_p variables.
@@ -31,6 +31,9 @@ def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
             zeros in the array to nans.
     remove_sub_detect: bool
         If True, remove hydrometeor-bearing grid cells with extinct lidar signal.
+    ext_OD: float or None
+        The optical depth at which the lidar signal is assumed to be extinct. When None, the
+        instrument's value is used.
 
     Returns
     -------
@@ -46,6 +49,9 @@ def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
             raise ValueError("no default threshold values for %s" % instrument.instrument_str)
         beta_p_phase_thresh = instrument.beta_p_phase_thresh
 
+    if ext_OD is None:
+        ext_OD = instrument.ext_OD
+
     if model.process_conv:
         mask_name_str = ["strat_phase_mask_%s" % instrument.instrument_str,
                          "conv_phase_mask_%s" % instrument.instrument_str,
@@ -82,7 +88,7 @@ def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
             Class_legend[beta_p_phase_thresh[class_type]["class_ind"] - 1] = \
                 beta_p_phase_thresh[class_type]["class"]
         if remove_sub_detect:
-            phase_mask = np.where(model.ds[OD_fieldnames[ii]] > instrument.ext_OD, 0, phase_mask)
+            phase_mask = np.where(model.ds[OD_fieldnames[ii]] > ext_OD, 0, phase_mask)
         if convert_zeros_to_nan:
             phase_mask = np.where(phase_mask == 0, np.nan, phase_mask)
 
diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 06a01b4..6c266d8 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -227,7 +227,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
 
             if do_classify is True:
                 model = lidar_classify_phase(
-                    instrument, model, convert_zeros_to_nan=convert_zeros_to_nan)
+                    instrument, model, convert_zeros_to_nan=convert_zeros_to_nan, ext_OD=ext_OD)
                 model = lidar_emulate_cosp_phase(
                     instrument, model, eta=eta, OD_from_sfc=OD_from_sfc,
                     convert_zeros_to_nan=convert_zeros_to_nan, hyd_types=hyd_types)
-- 
2.43.0


From 4fd2151f6e5492cec411a150f1caa07a7fbec9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 22/66] fix: COSP emulation and mass phase ratio include every
 requested ice class

---
 emc2/simulator/classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index d12ce73..2c01bc6 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -242,7 +242,8 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         atb_cross_coeff = {'liq': [0.4099, 0.009, 0], 'ice': [0.2904, 0]}
 
     if inc_precip_hyd_atb:
-        hyd_classes = {"liq": ["cl", "pl"], "ice": ["ci", "pi"]}
+        hyd_classes = {"liq": ["cl", "pl"],
+                       "ice": ["ci", "pi"] + [x for x in hyd_types if x not in ["cl", "pl", "ci", "pi"]]}
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
@@ -445,7 +446,7 @@ def calculate_phase_ratio(model, variable, mask_class, mask_allhyd=None, mass_pr
 
     if mass_pr is True:
         liq_classes = [x for x in ["cl", "pl"] if x in hyd_types]
-        ice_classes = [x for x in ["ci", "pi"] if x in hyd_types]
+        ice_classes = [x for x in hyd_types if x not in ["cl", "pl"]]
         if mpr_subcolmod is True:
             mass_subcol_liq = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
             mass_subcol_ice = np.zeros_like(model.ds["strat_frac_subcolumns_cl"], dtype=float)
-- 
2.43.0


From dc2d42dd394a079827b817d04fb76c84f17138cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 23/66] fix: attenuated subcolumn timeseries plot uses its
 radar and lidar limits

---
 emc2/statistics_LLNL/statistical_plots.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 6c5901b..83385c0 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -410,18 +410,18 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     textx, texty = 0.04, 1.03
     ifig = 0
     if not 'vmin' in list(kwargs.keys()):
-        vmin = -50.0
+        vmin = vmin_radar
     else:
         vmin = kwargs.pop('vmin')
 
     if not 'vmax' in list(kwargs.keys()):
-        vmax = 10.0
+        vmax = vmax_radar
     else:
-        vmax = kwargs.pop('vmin')    
+        vmax = kwargs.pop('vmax')
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     Ze_att_tot_plt[Ze_att_tot_plt <= -1.e+20] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_att_tot_plt, vmin=-50, vmax=10, cmap=cmap, **kwargs)
+                             Ze_att_tot_plt, vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -438,14 +438,11 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    vmin = 1e-8
-    vmax = 1e-3
-
     ifig = 1
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
     beta_att_tot_plt[beta_att_tot_plt <= -1.e+40] = np.nan
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin, vmax=vmax), 
+                             beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar), 
                              cmap=cmap)
     ax[ifig].text(textx, texty, 'Lidar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
-- 
2.43.0


From 53ac63e51a4281a60147c3f0ca6fa4b01ad0fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 24/66] fix: calc_total_reflectivity generates the
 detectability mask only on request

---
 emc2/simulator/radar_moments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index b95b2f4..7b19949 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -57,9 +57,10 @@ def calc_total_reflectivity(model, detect_mask=False):
     model.ds["sub_col_Ze_tot"] = model.ds["sub_col_Ze_tot"].where(np.isfinite(model.ds["sub_col_Ze_tot"]))
     model.ds["sub_col_Ze_att_tot"] = model.ds["sub_col_Ze_att_tot"].where(
         np.isfinite(model.ds["sub_col_Ze_att_tot"]))
-    model.ds["detect_mask"] = model.ds["Ze_min"] >= model.ds["sub_col_Ze_att_tot"]
-    model.ds["detect_mask"].attrs["long_name"] = "Radar detectability mask"
-    model.ds["detect_mask"].attrs["units"] = ("1 = radar signal below noise floor, 0 = signal detected")
+    if detect_mask:
+        model.ds["detect_mask"] = model.ds["Ze_min"] >= model.ds["sub_col_Ze_att_tot"]
+        model.ds["detect_mask"].attrs["long_name"] = "Radar detectability mask"
+        model.ds["detect_mask"].attrs["units"] = ("1 = radar signal below noise floor, 0 = signal detected")
 
     return model
 
-- 
2.43.0


From 0453c28ee61327b7371f3362bce0a5b0e9e6ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 25/66] fix: remove truncated P3 ice water content samples (the
 masked field was discarded)

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..66ef6c5 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -870,8 +870,8 @@ class E3SMv1(Model):
                 if (self.mcphys_scheme == "P3") & (hyd == "ci"):  # P3 preprocessing
 
                     for var in [self.q_names_stratiform[hyd], self.p3_kws["q_rim_name"]]:
-                        self.ds[var].where(
-                            lambda x: x > ice_valid_mass_thresh)  # remove truncated water content samples to prevent issues
+                        self.ds[var] = self.ds[var].where(
+                            lambda x: x > ice_valid_mass_thresh, 0.)  # remove truncated water content samples to prevent issues
 
                     dims = self.ds[self.N_field[hyd]].dims
                     self.ds[self.p3_kws["in_cld_Ni_name"]] = xr.DataArray(
-- 
2.43.0


From 7dce248dd30ff748e6b9c5978cf9c24a1b2c6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 26/66] fix: store the radar CFAD bins with the saved
 statistics (assign_coords returns a new dataset)

---
 emc2/statistics_LLNL/statistical_output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_output.py b/emc2/statistics_LLNL/statistical_output.py
index ee6899c..912e39b 100755
--- a/emc2/statistics_LLNL/statistical_output.py
+++ b/emc2/statistics_LLNL/statistical_output.py
@@ -30,8 +30,7 @@ def save_cfads_to_nc(model, kazr_DBZE_BINS_ground, CF_3D,
         output file name
     """
 
-    model_ds_add = model.ds
-    model_ds_add.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
+    model_ds_add = model.ds.assign_coords({"cosp_dbz": ("cosp_dbz", kazr_DBZE_BINS_ground)})
     model_ds_add["CFAD_Radar"] = (['cosp_ht', 'cosp_ze'], cfaddbz35_cal_alltime)
     model_ds_add["CFAD_SR"] = (['cosp_ht', 'cosp_sr'], cfadSR_cal_alltime)
     print('saved CFADs')
-- 
2.43.0


From 5e9dfb9634620818d0a4343a84a42c0193a2cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 27/66] fix: save every field with a subcolumn dimension and
 clear hydrometeor extinction and COSP fields

---
 emc2/core/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 66ef6c5..d0a7b26 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -318,7 +318,8 @@ class Model():
         vars_to_drop = []
         for key in self.ds.keys():
             if np.logical_and(cloud_class in key,
-                              np.any([fstr in key for fstr in ["sub_col", "subcol", "phase_mask"]])):
+                              np.any([fstr in key for fstr in ["sub_col", "subcol", "phase_mask",
+                                                               "hyd_ext_", "COSP_"]])):
                 vars_to_drop.append(key)
         self.ds = self.ds.drop_vars(vars_to_drop)
 
@@ -568,7 +569,7 @@ class Model():
         vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", self.time_dim, "Times"]
         var_dict = {}
         for my_var in self.ds.variables.keys():
-            if np.any([x in my_var for x in vars_to_keep]):
+            if np.any([x in my_var for x in vars_to_keep]) or "subcolumn" in self.ds[my_var].dims:
                 var_dict[my_var] = self.ds[my_var]
         out_ds = xr.Dataset(var_dict)
         out_ds.to_netcdf(file_name)
-- 
2.43.0


From 89280bbc5094cd5a466fbe2dc34beee83852e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 28/66] fix: reject instruments of the wrong kind in every
 radar and lidar calculation

---
 emc2/simulator/attenuation.py   | 4 ++++
 emc2/simulator/lidar_moments.py | 9 +++++++++
 emc2/simulator/radar_moments.py | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 93c1d50..beeb761 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -22,6 +22,8 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
     model: :py:mod:`emc2.core.Model`
         The Model class that will store the Ze_min profile.
     """
+    if not instrument.instrument_class.lower() == "radar":
+        raise ValueError("Instrument must be a radar!")
 
     Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
@@ -50,6 +52,8 @@ def calc_radar_atm_attenuation(instrument, model):
 
     if not isinstance(instrument, Instrument):
         raise ValueError(str(instrument) + ' is not an Instrument!')
+    if not instrument.instrument_class.lower() == "radar":
+        raise ValueError("Instrument must be a radar!")
 
     q_field = model.q_field
     p_field = model.p_field
diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index e974b67..1af7b38 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -234,6 +234,9 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     """
     hyd_types = model.set_hyd_types(hyd_types)
 
+    if not instrument.instrument_class.lower() == "lidar":
+        raise ValueError("Instrument must be a lidar!")
+
     if is_conv:
         cloud_str = "conv"
     else:
@@ -331,6 +334,9 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
     """
     hyd_types = model.set_hyd_types(hyd_types)
 
+    if not instrument.instrument_class.lower() == "lidar":
+        raise ValueError("Instrument must be a lidar!")
+
     optional_ice_classes = ["ci", "pi", "sn", "gr", "ha", "pir", "pid", "pif"]
 
     if is_conv:
@@ -565,6 +571,9 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
     """
     hyd_types = model.set_hyd_types(hyd_types)
 
+    if not instrument.instrument_class.lower() == "lidar":
+        raise ValueError("Instrument must be a lidar!")
+
     optional_ice_classes = ["ci", "pi", "sn", "gr", "ha", "pir", "pid", "pif"]
 
     if model.rad_scheme_family == "CESM":
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 7b19949..60f062d 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -279,6 +279,9 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
     """
     hyd_types = model.set_hyd_types(hyd_types)
 
+    if not instrument.instrument_class.lower() == "radar":
+        raise ValueError("Instrument must be a radar!")
+
     optional_ice_classes = ["ci", "pi", "sn", "gr", "ha", "pir", "pid", "pif"]
 
     n_subcolumns = model.num_subcolumns
@@ -513,6 +516,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     """
     hyd_types = model.set_hyd_types(hyd_types)
 
+    if not instrument.instrument_class.lower() == "radar":
+        raise ValueError("Instrument must be a radar!")
+
     optional_ice_classes = ["ci", "pi", "sn", "gr", "ha", "pir", "pid", "pif"]
 
     method_str = "LUTs (microphysics logic)"
-- 
2.43.0


From cdd6fba4d1a39f7c449ff1671e6c6f7fe919f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 29/66] fix: make_simulated_data rejects unsupported
 instruments before generating subcolumns

---
 emc2/simulator/main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 6c266d8..55df64d 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -117,6 +117,14 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
     else:
         use_empiric_calc = False
 
+    # Reject unsuitable instruments before anything is written to the model
+    if not subcol_gen_only:
+        if instrument.instrument_class.lower() not in ["radar", "lidar"]:
+            raise ValueError("Currently, only lidars and radars are supported as instruments.")
+        if do_classify is True and instrument.instrument_class.lower() == "lidar" and \
+                instrument.instrument_str != "HSRL":
+            raise ValueError("Lidar phase classification and COSP emulation require the 532 nm HSRL")
+
     if skip_subcol_gen:
         print('Skipping subcolumn generator (make sure subcolumns were already generated).')
     else:
-- 
2.43.0


From 2bb4a0b0434dbfaad7ffe81b9f663d7f3703be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 30/66] fix: set_precip_sub_col_frac accepts the specified
 number of subcolumns and writes nothing when rejected

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 0964730..c49e73c 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -277,16 +277,13 @@ def set_precip_sub_col_frac(model, is_conv, N_columns=None, use_rad_logic=True,
     if model.num_subcolumns == 0 and N_columns is None:
         raise RuntimeError("The number of subcolumns must be specified in the model!")
 
-    if np.logical_and(model.num_subcolumns != 0, N_columns is not None):
+    if model.num_subcolumns != N_columns and model.num_subcolumns != 0 and N_columns is not None:
         raise ValueError("The number of subcolumns has already been specified (%d) and != %d" %
                          (model.num_subcolumns, N_columns))
 
     if N_columns is None:
         N_columns = model.num_subcolumns
 
-    if model.num_subcolumns == 0:
-        model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
-
     data_frac = []
     # For subcolumn coverage, lump 3 ice precip categories into one
     if is_conv:
@@ -333,6 +330,9 @@ def set_precip_sub_col_frac(model, is_conv, N_columns=None, use_rad_logic=True,
     in_prof_cloud_name_ice = precip_type + '_frac_subcolumns_ci'
     subcolumn_dims = model.ds[in_prof_cloud_name_ice].dims
 
+    if model.num_subcolumns == 0:
+        model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
+
     if N_columns == 1:
         print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields to 1 for {precip_type} precip based on q > {q_trunc_thresh} kg/kg")
-- 
2.43.0


From aa6f34f5cda42ad7d71ef203272ae7697a020331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 31/66] fix: use the number of subcolumns of the model when
 N_columns is not given

---
 emc2/simulator/subcolumn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index c49e73c..b0f1a12 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -36,6 +36,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
     np.seterr(divide='ignore', invalid='ignore')
     if N_columns is None and model.num_subcolumns == 0:
         N_columns = model.ds.dims['subcolumn']
+    if N_columns is None:
+        N_columns = model.num_subcolumns
 
     if model.num_subcolumns != N_columns and model.num_subcolumns != 0 and N_columns is not None:
         raise ValueError("The number of subcolumns has already been specified (%d) and != %d" %
@@ -128,6 +130,9 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
     else:
         method_str = "Microphysics logic"
 
+    if N_columns is None and model.num_subcolumns > 0:
+        N_columns = model.num_subcolumns
+
     if model.process_conv:
         if "conv_frac_subcolumns_cl" not in model.ds.variables.keys():
             raise KeyError("You have to generate the convective fraction in each subcolumn " +
-- 
2.43.0


From ca837f222afde8e2b2247c0ffa15a1d18c81e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 32/66] fix: the COSP scattering ratio is dimensionless

---
 emc2/simulator/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 2c01bc6..0eda2f8 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -340,7 +340,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
                 SR, dims=model.ds["strat_q_subcolumns_cl"].dims)
             model.ds["COSP_SR_%s" % cloud_class].attrs["long_name"] = \
                 "COSP emulation scattering ratio for %s clouds" % cloud_class
-            model.ds["COSP_SR_%s" % cloud_class].attrs["units"] = r"$m^{-1}\ sr^{-1}$"
+            model.ds["COSP_SR_%s" % cloud_class].attrs["units"] = "1"
 
     # determine phase_mask for all hydrometeors
     ATB_tot_allhyd = (beta_p_allhyd + beta_p_cross_allhyd +
@@ -400,7 +400,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
             SR_allhyd, dims=model.ds["strat_q_subcolumns_cl"].dims)
         model.ds["COSP_SR_all_hyd"].attrs["long_name"] = \
             "COSP emulation scattering ratio (convective + stratiform)"
-        model.ds["COSP_SR_all_hyd"].attrs["units"] = r"$m^{-1}\ sr^{-1}$"
+        model.ds["COSP_SR_all_hyd"].attrs["units"] = "1"
 
     return model
 
-- 
2.43.0


From a17213d8124f0d3b9ad39eb51ca6e43536ec770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 33/66] fix: convert the molecular mass extinction cross
 section from cm^2 g^-1 to m^2 kg^-1 and label it so

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index beeb761..ed2e88d 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -149,7 +149,7 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
     sigma = sigma * 1e-4
     N_s = N_s / 1e-6
     beta = beta / 1e-2
-    kappa = kappa * 1e-3 / 1e-6
+    kappa = kappa * 1e-4 / 1e-3
     sigma_180 = sigma_180 * 1e-4
     sigma_180_vol = sigma_180_vol / 1e-2
 
@@ -190,7 +190,7 @@ def calc_theory_beta_m(model, Lambda, OD_from_sfc=True):
 
     model.ds["kappa"] = xr.DataArray(kappa, dims=my_dims)
     model.ds["kappa"].attrs["long_name"] = "Mass extinction cross section per molecule"
-    model.ds["kappa"].attrs["units"] = r"$kg\ m^{-3}$"
+    model.ds["kappa"].attrs["units"] = r"$m^{2}\ kg^{-1}$"
 
     model.ds["N_s"] = xr.DataArray(N_s, dims=my_dims)
     model.ds["N_s"].attrs["long_name"] = "Number density profile"
-- 
2.43.0


From d1ec92081c23859e3fb8345c8ca1dad1aa307ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 34/66] fix: DHARMA rimed ice reads its own effective radius
 fields and is declared an ice class

---
 emc2/core/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index d0a7b26..54cadfc 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -1466,12 +1466,13 @@ class DHARMA(Model):
             self.strat_frac_names.update({'pir': 'strat_pir_frac'})
             self.conv_frac_names_for_rad.update({'pir': 'conv_dat'})
             self.strat_frac_names_for_rad.update({'pir': 'strat_pir_frac'})
-            self.conv_re_fields.update({'pir': 'strat_pir_frac'})
-            self.strat_re_fields.update({'pir': 'strat_pir_frac'})
+            self.conv_re_fields.update({'pir': 'conv_dat'})
+            self.strat_re_fields.update({'pir': 're_strat_pir'})
             self.q_names_convective.update({'pir': 'conv_dat'})
             self.q_names_stratiform.update({'pir': 'qpir'})
             self.Vd_rhoa_scaling_ref['pir'] = 1.15  # Localleti and Hobbs (1974) - est. based on paper info
             self.hyd_types.append("pir")
+            self.ice_hyd_types.append("pir")
         self.mcphys_scheme="MG"  # MG2008
         self.rad_scheme_family = "ModelE"  # Similar implementation to ModelE3
 
-- 
2.43.0


From 96e4ec6c14c42108bab8babebd5d09d6a037e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 35/66] fix: lidars without a supercooled option pass extra
 table options on as such

---
 emc2/core/instruments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/core/instruments.py b/emc2/core/instruments.py
index 2218e28..018425f 100644
--- a/emc2/core/instruments.py
+++ b/emc2/core/instruments.py
@@ -212,7 +212,7 @@ class RL(Instrument):
         self.eps_liq = (1.357247 + 2.4198595e-9j) ** 2
     
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class HSRL(Instrument):
@@ -243,7 +243,7 @@ class HSRL(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
 
 
 class MPL(HSRL):
@@ -353,4 +353,4 @@ class CALIOP(Instrument):
         self.eps_liq = (1.337273 + 1.7570744e-9j) ** 2
 
         # Load mie tables
-        self.load_instrument_scat_files(*args)  # load scattering files for this instrument
+        self.load_instrument_scat_files(True, *args)  # load scattering files for this instrument
-- 
2.43.0


From 2a31fa540820dc9578d954fc4049d46da50ac5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 36/66] fix: detect_mask marked cells without any radar signal
 as detected

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 60f062d..7221a81 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -58,7 +58,7 @@ def calc_total_reflectivity(model, detect_mask=False):
     model.ds["sub_col_Ze_att_tot"] = model.ds["sub_col_Ze_att_tot"].where(
         np.isfinite(model.ds["sub_col_Ze_att_tot"]))
     if detect_mask:
-        model.ds["detect_mask"] = model.ds["Ze_min"] >= model.ds["sub_col_Ze_att_tot"]
+        model.ds["detect_mask"] = np.logical_not(model.ds["Ze_min"] <= model.ds["sub_col_Ze_att_tot"])
         model.ds["detect_mask"].attrs["long_name"] = "Radar detectability mask"
         model.ds["detect_mask"].attrs["units"] = ("1 = radar signal below noise floor, 0 = signal detected")
 
-- 
2.43.0


From 5fc3eb154bc2d4e5897e20c24cd6141ffe5af8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 37/66] fix: scattering cross sections are in square metres, as
 converted, not microns^2

---
 emc2/io/load_mie_file.py  | 2 +-
 emc2/io/load_scat_file.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/io/load_mie_file.py b/emc2/io/load_mie_file.py
index 132ee6e..46fe557 100644
--- a/emc2/io/load_mie_file.py
+++ b/emc2/io/load_mie_file.py
@@ -52,7 +52,7 @@ def load_mie_file(filename):
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
diff --git a/emc2/io/load_scat_file.py b/emc2/io/load_scat_file.py
index 0e5cd62..1e4cab6 100644
--- a/emc2/io/load_scat_file.py
+++ b/emc2/io/load_scat_file.py
@@ -88,7 +88,7 @@ def load_scat_file(filename, is_radar, param_type="C6"):
     my_df["V"].attrs["long_name"] = "Particle volume"
     my_df['V'].attrs["standard_name"] = "Volume"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
-- 
2.43.0


From 29a2cef766e48339c16984ef8fb2e33bdec23c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 38/66] fix: water Mie calculator swapped the backscattering
 and scattering cross sections

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 27a4a2f..5b61cee 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -88,8 +88,8 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict = {'ext_eff': qext, 'scat_eff': qsca, 'qabs': qabs,
                'g': g, 'qpr': qpr, 'backscat_eff': qback, 'qratio': qratio}
     my_dict['alpha_p'] = my_dict['ext_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['beta_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
-    my_dict['scat_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['beta_p'] = my_dict['backscat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
+    my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
     my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
-- 
2.43.0


From e69095bed7f45867f483f3f3d7d676ba87a0da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 39/66] fix: Mie calculators described extinction as
 backscattering and the reverse

---
 emc2/scattering/mie_scattering.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index 5b61cee..bec4aae 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -124,12 +124,12 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
@@ -221,17 +221,17 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Forward scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section_fwd"
 
     my_df["alpha_p"].attrs["units"] = "meters^2"
-    my_df["alpha_p"].attrs["long_name"] = "Back scattering cross section"
-    my_df["alpha_p"].attrs["standard_name"] = "Scat_cross_section_back"
+    my_df["alpha_p"].attrs["long_name"] = "Extinction cross section"
+    my_df["alpha_p"].attrs["standard_name"] = "Ext_cross_section"
 
     my_df["beta_p"].attrs["units"] = "meters^2"
-    my_df["beta_p"].attrs["long_name"] = "Extinction cross section"
-    my_df["beta_p"].attrs["standard_name"] = "Ext_cross_section"
+    my_df["beta_p"].attrs["long_name"] = "Back scattering cross section"
+    my_df["beta_p"].attrs["standard_name"] = "Scat_cross_section_back"
 
     my_df["scat_eff"].attrs["units"] = "1"
     my_df["scat_eff"].attrs["long_name"] = "Forward scattering efficiency"
-- 
2.43.0


From 6761ed55ff1c8d5406e046454e3fe62018a1a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 40/66] fix: Mie calculators divided a diameter in nm by a
 wavelength in microns

---
 emc2/scattering/mie_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/scattering/mie_scattering.py b/emc2/scattering/mie_scattering.py
index bec4aae..deea806 100644
--- a/emc2/scattering/mie_scattering.py
+++ b/emc2/scattering/mie_scattering.py
@@ -92,7 +92,7 @@ def scat_properties_water(diams, wavelength, temperature=0., pressure=1013.):
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
@@ -194,7 +194,7 @@ def scat_properties_ice(diams, wavelength, temperature=0., pressure=1013., rho_d
     my_dict['scat_p'] = my_dict['scat_eff'] * np.pi / 4 * diams ** 2 * 1e-18
     my_dict['compre_real'] = m.real * np.ones_like(qext) / 1.0003
     my_dict['compre_im'] = m.imag * np.ones_like(qext) / 1.0003
-    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e4)
+    my_dict['size_parameter'] = np.pi * diams / (wavelength * 1e7)
     my_dict['p_diam'] = diams * 1e-9
     my_dict['wavelength'] = wavelength * 1e4 * np.ones_like(qext)
     my_df = xr.Dataset(my_dict)
-- 
2.43.0


From 8324609271e01f9ed46037104196c486c35bed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 41/66] fix: oxygen line width thresholds compared hPa values
 with the raw pressure field

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index ed2e88d..ad42800 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -75,8 +75,8 @@ def calc_radar_atm_attenuation(instrument, model):
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-    gamma_0[column_ds[p_field].values >= 333] = 0.59
-    gamma_0[column_ds[p_field].values < 25.] = 1.18
+    gamma_0[p_temp >= 333] = 0.59
+    gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
     kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
         gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-- 
2.43.0


From 464cb98fda19de083afe5ac441605b14014e8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 42/66] fix: minimum detectable reflectivity took the height
 field in whatever unit it has

---
 emc2/simulator/attenuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index ad42800..7723970 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -25,7 +25,8 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
     if not instrument.instrument_class.lower() == "radar":
         raise ValueError("Instrument must be a radar!")
 
-    Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
+    z_temp = quantity(model.ds[model.z_field].values, model.ds[model.z_field].attrs["units"]).to("meter").magnitude
+    Ze_min = instrument.Z_min_1km + 20 * np.log10(z_temp) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
     model.ds["Ze_min"].attrs["long_name"] = "Minimum discernable radar reflectivity factor"
     model.ds["Ze_min"].attrs["units"] = 'dBZ'
-- 
2.43.0


From b39bcdefb4b45134cd9441427e08f429f928056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 43/66] fix: gaseous attenuation formulas take the frequency in
 GHz, the instrument has it in Hz

---
 emc2/simulator/attenuation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 7723970..84b83e6 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -64,24 +64,26 @@ def calc_radar_atm_attenuation(instrument, model):
     t_temp = quantity(model.ds[t_field].values, model.ds[t_field].attrs["units"]).to("kelvin").magnitude
     p_temp = quantity(model.ds[p_field].values, model.ds[p_field].attrs["units"]).to("hPa").magnitude
 
+    freq = instrument.freq * 1e-9  # Hz to GHz
+
     column_ds = model.ds
 
     rho_wv = column_ds[q_field] * 1e3 * (p_temp * 1e2) / (instrument.R_d * t_temp)
     three_hundred_t = 300. / t_temp
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * instrument.freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+    kappa_wv = (2 * freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
         (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - instrument.freq**2)**2 + 4 * instrument.freq**2) * gamma_l**2 + 1.2e-6
+        1 / ((494.4 - freq**2)**2 + 4 * freq**2) * gamma_l**2 + 1.2e-6
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
     gamma_0[p_temp >= 333] = 0.59
     gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
-    kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
-        gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-                   (instrument.freq**2 + gamma_l**2))
+    kappa_o2 = (1.1e-2 * freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
+        gamma_l * (1. / ((freq - f0)**2 + gamma_l**2) + 1. /
+                   (freq**2 + gamma_l**2))
 
     column_ds['kappa_o2'] = xr.DataArray(kappa_o2, dims=model.ds[t_field].dims)
     column_ds['kappa_o2'].attrs["long_name"] = "Gaseous attenuation due to O2"
-- 
2.43.0


From 3dda5da28c29629ecc1db58c1acf80b08d7df301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 44/66] fix: operator precedence in the water vapour absorption
 formula

---
 emc2/simulator/attenuation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 84b83e6..bdb416c 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -72,9 +72,9 @@ def calc_radar_atm_attenuation(instrument, model):
     three_hundred_t = 300. / t_temp
     gamma_l = 2.85 * (p_temp / 1013.) * (three_hundred_t)**0.626 * \
         (1 + 0.018 * rho_wv * t_temp / p_temp)
-    kappa_wv = (2 * freq)**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
-        (three_hundred_t) * np.exp(-644 / t_temp) * \
-        1 / ((494.4 - freq**2)**2 + 4 * freq**2) * gamma_l**2 + 1.2e-6
+    kappa_wv = 2 * freq**2 * rho_wv * (three_hundred_t)**1.5 * gamma_l * \
+        ((three_hundred_t) * np.exp(-644 / t_temp) /
+         ((494.4 - freq**2)**2 + 4 * freq**2 * gamma_l**2) + 1.2e-6)
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-- 
2.43.0


From d5eece9246969cf5362e287f5d4902184c375095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 45/66] fix: COSP phase thresholds in kelvin were compared with
 temperature in the model's own unit

---
 emc2/simulator/classification.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 0eda2f8..7534a58 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -2,6 +2,7 @@ import xarray as xr
 import numpy as np
 
 from ..core import Instrument, Model
+from ..core.instrument import quantity
 
 
 def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
@@ -247,6 +248,7 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     else:
         hyd_classes = {"liq": ["cl"], "ice": ["ci"]}
 
+    t_values = quantity(model.ds[model.T_field].values, model.ds[model.T_field].attrs["units"]).to("kelvin").magnitude
     ATB_mol = np.tile(model.ds['sigma_180_vol'].values * (1. + 0.0284) * model.ds['tau'].values,
                       (model.num_subcolumns, 1, 1))
 
@@ -308,11 +310,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         reflective_mask = np.where(np.logical_and(SR > undef_SR_thresh, reflective_mask == 1),
                                    0, reflective_mask)
 
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) > 273.15,
+        phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) > 273.15,
                               phase_mask > 0), 1, phase_mask)
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                     (model.num_subcolumns, 1, 1)) < 233.15,
+        phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) < 233.15,
                               phase_mask > 0), 2, phase_mask)
         phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
         if convert_zeros_to_nan:
@@ -370,11 +370,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     reflective_mask = np.where(np.logical_and(SR_allhyd > undef_SR_thresh, reflective_mask == 1),
                                0, reflective_mask)
 
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) > 273.15,
+    phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) > 273.15,
                           phase_mask > 0), 1, phase_mask)
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
-                                                 (model.num_subcolumns, 1, 1)) < 233.15,
+    phase_mask = np.where(np.logical_and(np.tile(t_values, (model.num_subcolumns, 1, 1)) < 233.15,
                           phase_mask > 0), 2, phase_mask)
     phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
     if convert_zeros_to_nan:
-- 
2.43.0


From 4fc773fc6d6ca9c91ef12b48b5640f0955135ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 46/66] fix: air density assumed hPa and K instead of the units
 the fields declare

---
 emc2/core/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index 54cadfc..c2a2de2 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -199,8 +199,11 @@ class Model():
         The calculation is based on the ideal gas law using temperature [K] and pressure [hPa] fields.
 
         """
-        if np.all([self.T_field in self.ds.keys(), self.T_field in self.ds.keys()]):
-            self.ds["rho_a"] = self.ds[self.p_field] * 1e2 / (self.consts["R_d"] * self.ds[self.T_field])
+        if np.all([self.T_field in self.ds.keys(), self.p_field in self.ds.keys()]):
+            t_field, p_field = self.ds[self.T_field], self.ds[self.p_field]
+            t_temp = t_field.copy(data=quantity(t_field.values, t_field.attrs.get("units", "kelvin")).to("kelvin").magnitude)
+            p_temp = p_field.copy(data=quantity(p_field.values, p_field.attrs.get("units", "hPa")).to("hPa").magnitude)
+            self.ds["rho_a"] = p_temp * 1e2 / (self.consts["R_d"] * t_temp)
             self.ds["rho_a"].attrs["units"] = "kg / m ** 3"
         else:
             warnings.warn(f"Temperature and pressure field not provided in `Model` init; "
-- 
2.43.0


From 0f8be08d5ef3d8d174ce3213a26dd07f171a6e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 47/66] fix: the Heymsfield et al. (2014) relation takes ice
 water content in g m-3

IWC was passed in kg m-3; 0.1 g m-3 at -40 C gave an extinction that
implies an effective radius of 6 cm instead of about 100 um.
---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 1af7b38..f9bbb76 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -264,13 +264,13 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-            # Heymsfield et al. (2014)
+            # Heymsfield et al. (2014), WC in g m-3
             a = 0.00532 * (t_values + 90) ** 2.55
             b = 1.31 * np.exp(0.0047 * t_values)
             a = np.tile(a, (model.num_subcolumns, 1, 1))
             b = np.tile(b, (model.num_subcolumns, 1, 1))
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (WC / a) ** (1 / b), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
+                (WC * 1e3 / a) ** (1 / b), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
         model.ds["sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)] = \
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] / \
-- 
2.43.0


From 389211102af78248bbba1186c3e59a6b9649612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 48/66] fix: NSSL cloud droplets fall at the same speed in the
 total spectral width as in the mean velocity

---
 emc2/simulator/radar_moments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 7221a81..e490f53 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -1084,9 +1084,11 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
+        if mcphys_scheme.lower() == "nssl":  # as in the mean Doppler velocity calculation
+            v_tmp = -calc_velocity_nssl(p_diam, None, hyd_type)
+        else:  # power-law velocity schemes for liquid
             v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
+            v_tmp = -v_tmp.magnitude.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
-- 
2.43.0


From 6dc2060c9872294b4b85e320b726f7838f336ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 49/66] fix: plotting regridded fields no longer replaces zeros
 by NaN in the caller's array

---
 emc2/plotting/subcol_display.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 99f2cc2..fc8776e 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -1252,7 +1252,7 @@ class SubcolumnDisplay(Display):
         
         #  modified    
         var_array = np.squeeze(var_array_3D[:,:,col_index]).T
-        var_array[var_array<=0]=np.nan  # can be with blue 
+        var_array = np.where(var_array <= 0, np.nan, var_array)  # can be with blue 
                         
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)
@@ -1344,7 +1344,7 @@ class SubcolumnDisplay(Display):
         y = newgrid_mid*1000. # from km to m
         x, y = np.meshgrid(x, y)  
         var_array = np.squeeze(var_array_4D[subcol_index,:,:,col_index]).T   
-        var_array[var_array==0]=np.nan
+        var_array = np.where(var_array == 0, np.nan, var_array)
                 
         if y_range is not None:
             self.axes[subplot_index].set_ylim(y_range)      
-- 
2.43.0


From 9a569666151ec82aa7a0f6d01fbeda250cd250a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 50/66] fix: statistics figures no longer write NaNs into the
 model data when reshaping returns a view

---
 emc2/statistics_LLNL/statistical_plots.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 83385c0..bc92a12 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -419,7 +419,7 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
     else:
         vmax = kwargs.pop('vmax')
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
-    Ze_att_tot_plt[Ze_att_tot_plt <= -1.e+20] = np.nan
+    Ze_att_tot_plt = np.where(Ze_att_tot_plt <= -1.e+20, np.nan, Ze_att_tot_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
                              Ze_att_tot_plt, vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
@@ -440,7 +440,7 @@ def plot_every_subcolumn_timeseries_radarlidarsignal(
 
     ifig = 1
     # var=np.transpose(dbze35_ground_th, axes=(0,2,1)).reshape(lev_ground.shape[0], -1)
-    beta_att_tot_plt[beta_att_tot_plt <= -1.e+40] = np.nan
+    beta_att_tot_plt = np.where(beta_att_tot_plt <= -1.e+40, np.nan, beta_att_tot_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
                              beta_att_tot_plt, norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar), 
                              cmap=cmap)
@@ -542,7 +542,7 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     textx, texty = 0.04, 1.03
 
     ifig = 0
-    Ze_tot_plt[Ze_tot_plt <= -1.e+20] = np.nan
+    Ze_tot_plt = np.where(Ze_tot_plt <= -1.e+20, np.nan, Ze_tot_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
                              Ze_tot_plt, vmin=vmin_radar, vmax=vmax_radar, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
@@ -571,7 +571,7 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
         vmin = kwargs.pop('vmax')    
 
     ifig = 1
-    beta_tot_plt[beta_tot_plt <= -1.e+40] = np.nan
+    beta_tot_plt = np.where(beta_tot_plt <= -1.e+40, np.nan, beta_tot_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
                              beta_tot_plt,
                              norm=colors.LogNorm(vmin=vmin_lidar, vmax=vmax_lidar),
@@ -807,7 +807,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
     textx, texty = 0.04, 1.03
 
     ifig = 0
-    strat_q_subcolumns_cl_plt[strat_q_subcolumns_cl_plt <= 0] = np.nan
+    strat_q_subcolumns_cl_plt = np.where(strat_q_subcolumns_cl_plt <= 0, np.nan, strat_q_subcolumns_cl_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_cl_plt*1000., vmin=vmin,
                              vmax=vmax, cmap=cmap)
@@ -830,7 +830,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
         label.set(rotation=x_rotation, horizontalalignment='right')
 
     ifig = 1
-    strat_q_subcolumns_ci_plt[strat_q_subcolumns_ci_plt <= 0] = np.nan
+    strat_q_subcolumns_ci_plt = np.where(strat_q_subcolumns_ci_plt <= 0, np.nan, strat_q_subcolumns_ci_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_ci_plt*1000., vmin=vmin,
                              vmax=vmax, cmap=cmap)
@@ -853,7 +853,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
         label.set(rotation=x_rotation, horizontalalignment='right')
 
     ifig = 2
-    strat_q_subcolumns_pl_plt[strat_q_subcolumns_pl_plt <= 0] = np.nan
+    strat_q_subcolumns_pl_plt = np.where(strat_q_subcolumns_pl_plt <= 0, np.nan, strat_q_subcolumns_pl_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pl_plt*1000., vmin=vmin,
                              vmax=vmax, cmap=cmap)
@@ -875,7 +875,7 @@ def plot_every_subcolumn_timeseries_mixingratio(model, col_index, save_flag,
         label.set(rotation=x_rotation, horizontalalignment='right')
 
     ifig = 3
-    strat_q_subcolumns_pi_plt[strat_q_subcolumns_pi_plt <= 0] = np.nan
+    strat_q_subcolumns_pi_plt = np.where(strat_q_subcolumns_pi_plt <= 0, np.nan, strat_q_subcolumns_pi_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long/1000.,
                              strat_q_subcolumns_pi_plt*1000., vmin=vmin,
                              vmax=vmax, cmap=cmap)
-- 
2.43.0


From 6dfc2bc6e8c84465c459a6c84677e3d616ac3538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 51/66] fix: vertical regridding skipped the lowest layer and
 ran past the highest

The level counter kept the resets of the 1-based Fortran original: layer 0 was
never revisited for the second new layer, and a new grid reaching above the old
one raised IndexError.
---
 emc2/statistics_LLNL/statistical_aggregation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..236fe13 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -246,7 +246,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
@@ -287,8 +287,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
 
                             r[i, j, k] = r[i, j, k] + w*yp
             lev -= 2
-            if lev < 1:
-                lev = 0
+            if lev < -1:
+                lev = -1
 
             # Calculate average in new grid
             if Nw > 0:
-- 
2.43.0


From e13889a9060c43577b8da2a0e6d9267dd8ff2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 52/66] fix: regridded bins without any data came out as 0
 instead of undefined

0 is a valid reflectivity in dBZ.
---
 emc2/statistics_LLNL/statistical_aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 236fe13..1d7544a 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -294,6 +294,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             if Nw > 0:
                 for j in np.arange(Ncolumns):
                     r[i, j, k] = r[i, j, k] / wt
+            else:  # no old layer overlaps this one
+                r[i, :, k] = R_UNDEF
 
     for k in np.arange(Nglevels):
         for j in np.arange(Ncolumns):
-- 
2.43.0


From 5bf05659bda82aa87233d39852dcccb0b65ac592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 53/66] fix: below-ground bins counted as clear sky in the
 lidar statistics

Their flag cancelled in the ratio, which gave them a scattering ratio of 1.
---
 emc2/statistics_LLNL/statistical_aggregation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 1d7544a..653dc84 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -148,6 +148,7 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
     """
 
     R_UNDEF = -1.0E30
+    R_GROUND = -1.0E20  # below ground flag of the regridding
     b = copy.deepcopy(atb_total_4D)
     atb_total_4D_num = np.nan_to_num(b, nan=R_UNDEF)
     c = copy.deepcopy(atb_mol_4D)
@@ -181,9 +182,11 @@ def calculate_SR(atb_total_4D, atb_mol_4D, subcolum_num, time_num, z_full_km_3D,
         Regrided_atb_mol_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_atb_mol_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_atbtot = np.where(Regrided_atb_total_reorder_4D == R_UNDEF)
+    loc_atbtot = np.where((Regrided_atb_total_reorder_4D == R_UNDEF)
+                          | (Regrided_atb_total_reorder_4D == R_GROUND))
     Regrided_atb_total_reorder_4D[loc_atbtot] = np.nan
-    loc_atbmol = np.where(Regrided_atb_mol_reorder_4D == R_UNDEF)
+    loc_atbmol = np.where((Regrided_atb_mol_reorder_4D == R_UNDEF)
+                          | (Regrided_atb_mol_reorder_4D == R_GROUND))
     Regrided_atb_mol_reorder_4D[loc_atbmol] = np.nan
 
     SR_4D = Regrided_atb_total_reorder_4D / Regrided_atb_mol_reorder_4D
@@ -347,6 +350,7 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
     """
 
     R_UNDEF = -1.0E30  # Missing value
+    R_GROUND = -1.0E20  # Flag for below ground results
 
     a = copy.deepcopy(Ze_att_total_4D)
     Ze_att_total_4D_num = np.nan_to_num(a, nan=R_UNDEF)
@@ -369,7 +373,8 @@ def get_regridded_ze_att_tot(Ze_att_total_4D, z_full_km_3D, z_half_km_3D, subcol
         Regrided_Ze_att_tot_reorder_4D[:, :, :, kk] = np.transpose(
             Regrided_ze_att_total_3D, axes=(1, 0, 2))  # loop through columns
 
-    loc_ze = np.where(Regrided_Ze_att_tot_reorder_4D == R_UNDEF)
+    loc_ze = np.where((Regrided_Ze_att_tot_reorder_4D == R_UNDEF)
+                      | (Regrided_Ze_att_tot_reorder_4D == R_GROUND))
     Regrided_Ze_att_tot_reorder_4D[loc_ze] = np.nan
 
     return Regrided_Ze_att_tot_reorder_4D
-- 
2.43.0


From d74b261f895c90587564d034a7104879f537dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 54/66] fix: half levels handed to the regridding were one
 layer too high

Half level n is the lower edge of layer n there; a sample was spread over the
layer above the one it belongs to.
---
 emc2/statistics_LLNL/statistical_aggregation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 653dc84..660dad6 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -100,8 +100,8 @@ def get_ATB_ATBmol(model, subcolumn_index, time_index, ncol_index):
 
     zfull = copy.deepcopy(z_filed_m)
     zhalf = np.zeros_like(zfull)
-    zhalf[:-1] = zfull[:-1] + np.diff(zfull) / 2.
-    zhalf[-1] = zfull[-1]
+    zhalf[1:] = zfull[1:] - np.diff(zfull) / 2.
+    zhalf[0] = 2. * zfull[0] - zhalf[1]
 
     return sub_atb_total, sub_atb_mol, z_filed_m, zhalf, sub_ze_att_total
 
-- 
2.43.0


From df7940b97a83c311ea9d7ad5a404f689b5f3e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 55/66] fix: top model layer had a negative thickness in the
 radiation-logic calculations

---
 emc2/simulator/lidar_moments.py | 7 ++++---
 emc2/simulator/radar_moments.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index f9bbb76..ed25cc5 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -369,9 +369,10 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
     model.ds['sub_col_OD_tot_%s' % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
-    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
-                      (model.num_subcolumns, 1, 1))
-    dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))
+    rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])) /
+                      instrument.g, (model.num_subcolumns, 1, 1))
+    dz = np.tile(np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]),
+                 (model.num_subcolumns, 1, 1))
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
         if hyd_type[-1] == 'l':  # liquid hydrometeors
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index e490f53..979b6f2 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -310,10 +310,10 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
     hyd_ext = np.zeros(Dims)
     rhoa_dz = np.tile(
-        np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
+        np.abs(np.diff(p_values, axis=1, append=2 * p_values[:, -1:] - p_values[:, -2:-1])) / instrument.g,
         (n_subcolumns, 1, 1))
     dz = np.tile(
-        np.diff(z_values, axis=1, append=0.), (n_subcolumns, 1, 1))
+        np.diff(z_values, axis=1, append=2 * z_values[:, -1:] - z_values[:, -2:-1]), (n_subcolumns, 1, 1))
 
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
-- 
2.43.0


From c8abb673a1b806b899a3e6c938949aad124c1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:23 +0000
Subject: [PATCH 56/66] fix: undefined effective radius of one class removed
 all radar attenuation above it

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 979b6f2..c95b31d 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -453,7 +453,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
                 (instrument.K_w * np.pi ** 5) * 1e-6,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd
+            hyd_ext += np.nan_to_num(np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd)
 
         model.ds["sub_col_Ze_tot_%s" % cloud_str] += model.ds["sub_col_Ze_%s_%s" % (
             hyd_type, cloud_str)].fillna(0)
-- 
2.43.0


From 020226caaf7b1ef04d39037be20dcca7b694f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 57/66] fix: empirical lidar extinction of liquid carried units
 and stopped the simulation

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index ed25cc5..b3fda44 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -260,7 +260,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From 672e125e2190a071f83293f796014a8c13108dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 58/66] fix: log-scaled figures work without (both) colour
 limits given

---
 emc2/plotting/subcol_display.py           | 32 ++++++-----------------
 emc2/statistics_LLNL/statistical_plots.py |  8 ++----
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index fc8776e..7cd2e4a 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -459,12 +459,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -588,12 +584,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -714,12 +706,8 @@ class SubcolumnDisplay(Display):
         if x_range is not None:
             self.axes[subplot_index].set_xlim(x_range)
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                        **kwargs)
         else:
@@ -1154,12 +1142,8 @@ class SubcolumnDisplay(Display):
             date_xaxis = False
 
         if log_plot is True:
-            if 'vmin' in kwargs.keys():
-                vmin = kwargs['vmin']
-                del kwargs['vmin']
-            if 'vmax' in kwargs.keys():
-                vmax = kwargs['vmax']
-                del kwargs['vmax']
+            vmin = kwargs.pop('vmin', None)
+            vmax = kwargs.pop('vmax', None)
             mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                     **kwargs)
         else:
diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index bc92a12..f8cbdeb 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -113,12 +113,8 @@ def plot_column_input_q_timeseries(self, variable, column_no=0, pressure_coords=
         date_xaxis = False
 
     if log_plot is True:
-        if 'vmin' in kwargs.keys():
-            vmin = kwargs['vmin']
-            del kwargs['vmin']
-        if 'vmax' in kwargs.keys():
-            vmax = kwargs['vmax']
-            del kwargs['vmax']
+        vmin = kwargs.pop('vmin', None)
+        vmax = kwargs.pop('vmax', None)
         mesh = self.axes[subplot_index].pcolormesh(x, y, var_array, norm=colors.LogNorm(vmin=vmin, vmax=vmax),
                                                    **kwargs)
     else:
-- 
2.43.0


From 85edfb95b129ab948f8de22cf59335c5e23e9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 59/66] fix: CFAD figures use the colour limits given, and a
 range of them by default

---
 emc2/statistics_LLNL/statistical_plots.py | 24 +++++------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index f8cbdeb..91e6a5d 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -209,17 +209,10 @@ def plot_radar_CFAD(Ze_EDGES, newgrid_mid, cfaddbz35_cal_alltime,
     else:
         cmap = kwargs.pop('cmap')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(Ze_EDGES, levStat_km_add0,
-                       cfaddbz35_cal_alltime, cmap=cmap, vmin=0.0, vmax=0.2,
+                       cfaddbz35_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
     ax.set_xlabel('Ze bins [dBZ]')
     ax.set_ylabel('Height [km]')
@@ -295,15 +288,8 @@ def plot_lidar_SR_CFAD(SR_EDGES, newgrid_mid, cfadSR_cal_alltime,
         cmap = kwargs.pop('cmap')
 
     SR_BINS_index = np.arange(len(SR_EDGES))
-    if not 'vmin' in kwargs.keys():
-        vmin = 0.0
-    else:
-        vmin = kwargs.pop('vmax')
-
-    if not 'vmax' in kwargs.keys():
-        vmax = 0.0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmin = kwargs.pop('vmin', 0.0)
+    vmax = kwargs.pop('vmax', 0.2)
     c1 = ax.pcolormesh(SR_BINS_index, levStat_km_add0,
                        cfadSR_cal_alltime, cmap=cmap, vmin=vmin, vmax=vmax,
                        **kwargs)
-- 
2.43.0


From be2f738ed75e91f9f8458649ede1f44490bd5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 60/66] fix: non-attenuated radar and lidar figure accepts vmin
 and vmax

---
 emc2/statistics_LLNL/statistical_plots.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 91e6a5d..7b7b796 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -525,8 +525,10 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
 
     ifig = 0
     Ze_tot_plt = np.where(Ze_tot_plt <= -1.e+20, np.nan, Ze_tot_plt)
+    vmin = kwargs.pop('vmin', vmin_radar)
+    vmax = kwargs.pop('vmax', vmax_radar)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-                             Ze_tot_plt, vmin=vmin_radar, vmax=vmax_radar, cmap=cmap, **kwargs)
+                             Ze_tot_plt, vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, 'Radar', transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
     ddy = np.array(ax[ifig].get_position())[1, 1] - \
@@ -543,15 +545,6 @@ def plot_every_subcolumn_timeseries_nonatt_radarlidarsignal(model, col_index, sa
     for label in ax[subplot_index].get_xticklabels(which='major'):
         label.set(rotation=x_rotation, horizontalalignment='right')
 
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-8
-    else:
-        vmin = kwargs.pop('vmin')
-    if not 'vmin' in kwargs.keys():
-        vmin = 1e-3
-    else:
-        vmin = kwargs.pop('vmax')    
-
     ifig = 1
     beta_tot_plt = np.where(beta_tot_plt <= -1.e+40, np.nan, beta_tot_plt)
     c1 = ax[ifig].pcolormesh(input_time_2d_long, input_height_half_long,
-- 
2.43.0


From 4312c8746c58394f34cf05a696840fcbfd148b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 61/66] fix: scattering ratio figure does not draw every value
 in one colour

---
 emc2/statistics_LLNL/statistical_plots.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index 7b7b796..eb4292c 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -648,10 +648,7 @@ def plot_every_subcolumn_timeseries_SR(model, atb_total_4D, atb_mol_4D,
         vmin = 0
     else:
         vmin = kwargs.pop('vmin')
-    if not 'vmax' in kwargs.keys():
-        vmax = 0
-    else:
-        vmax = kwargs.pop('vmax')    
+    vmax = kwargs.pop('vmax', None)
 
     fontsize_input = 12
     plt.rcParams.update({'font.size': 12})
-- 
2.43.0


From ba439d4f0e59fc08264b405a2de4d5323549d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 62/66] fix: precipitation panel uses the colour limits given

---
 emc2/statistics_LLNL/statistical_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/statistics_LLNL/statistical_plots.py b/emc2/statistics_LLNL/statistical_plots.py
index eb4292c..826ebb5 100755
--- a/emc2/statistics_LLNL/statistical_plots.py
+++ b/emc2/statistics_LLNL/statistical_plots.py
@@ -1002,7 +1002,7 @@ def plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation(
     plot_var1[plot_var1 < 0] = np.nan
     c1 = ax[ifig].pcolormesh(
         input_time_2d_long, input_height_half_long / 1000.,
-        plot_var1*1000., vmin=0, vmax=0.1, cmap=cmap)
+        plot_var1*1000., vmin=vmin, vmax=vmax, cmap=cmap, **kwargs)
     ax[ifig].text(textx, texty, '(b) Precipitation',
                   transform=ax[ifig].transAxes)
     y1 = np.array(ax[ifig].get_position())[0, 1]
-- 
2.43.0


From 883a92fc1b2ea466b4f7c1e9cce7913710bb246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:12 +0000
Subject: [PATCH 63/66] fix: switching the model of a display that was given a
 ds_name

---
 emc2/plotting/subcol_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index 7cd2e4a..cc0e1da 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -167,7 +167,7 @@ class SubcolumnDisplay(Display):
             A model containing the subcolumn data to relpace the current model data.
 
         """
-        self._ds.pop(self.model.model_name)
+        self._ds.clear()
         self.model = model
         self._ds.update({self.model.model_name: self.model.ds})
 
-- 
2.43.0


From 7ba62273dd161fa58b6a760d4b600b5168704d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 64/66] fix: switching a display to another latitude and
 longitude had no effect

---
 emc2/plotting/subcol_display.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emc2/plotting/subcol_display.py b/emc2/plotting/subcol_display.py
index cc0e1da..3b74f02 100644
--- a/emc2/plotting/subcol_display.py
+++ b/emc2/plotting/subcol_display.py
@@ -135,9 +135,8 @@ class SubcolumnDisplay(Display):
         """
         if not np.logical_and(lat_sel is None, lon_sel is None):
             self.cropped_lat_lon = [lat_sel, lon_sel]
-            if np.any([x in self.model.ds.dims for x in [self.model.lat_dim, self.model.lon_dim]]):
-                if deep:
-                    self.model.ds = copy.deepcopy(model.ds)
+            if np.any([x in model.ds.dims for x in [self.model.lat_dim, self.model.lon_dim]]):
+                self.model.ds = copy.deepcopy(model.ds) if deep else model.ds
                 if self.model.lat_dim in self.model.ds.dims:
                     if isinstance(lat_sel, float):
                         print("cropping lat dim (lat requested = %.2f)" % lat_sel)
@@ -152,6 +151,8 @@ class SubcolumnDisplay(Display):
                     elif isinstance(lon_sel, int):
                         print("cropping lon dim (lon index requested = %d)" % lon_sel)
                         self.model.ds = self.model.ds.isel({self.model.lon_dim: lon_sel})
+                for ds_name in getattr(self, '_ds', {}):
+                    self._ds[ds_name] = self.model.ds
         else:
             print("no alternative lat and lon coords provided - keeping processed dataset as is.")
 
-- 
2.43.0


From bd41f0027f16d2498f7292fbb38c7418d1c46c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:47 +0000
Subject: [PATCH 65/66] fix: lidar simulation of classes with variable density
 stopped with DimensionalityError

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index b3fda44..2fcdb3d 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -428,7 +428,7 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             rho_b = instrument.rho_i  # bulk ice
             rho_hyd = model.Rho_hyd[hyd_type]
             if rho_hyd == 'variable':
-                rho_hyd = model.ds[model.variable_density[hyd_type]].values
+                rho_hyd = model.ds[model.variable_density[hyd_type]].values * rho_b.units
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0


From afcc89e3e72d1c02539aa96b069d64866fe23b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:51 +0000
Subject: [PATCH 66/66] fix: cropping to a bounding box dropped the cells at
 its upper latitude and longitude edges

---
 emc2/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index c2a2de2..d3d5f6a 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -234,8 +234,8 @@ class Model():
         bounding_box_ind[3] = np.argmin(
                np.abs(bounding_box[3] - np.squeeze(XLONG_max.values)))
         input_dict = {}
-        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2])
-        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3])
+        input_dict[self.lat_dim] = slice(bounding_box_ind[0], bounding_box_ind[2] + 1)
+        input_dict[self.lon_dim] = slice(bounding_box_ind[1], bounding_box_ind[3] + 1)
         self.ds = self.ds.isel(input_dict)
 
     def _crop_bounding_box_x_y(self, bounding_box):
-- 
2.43.0

