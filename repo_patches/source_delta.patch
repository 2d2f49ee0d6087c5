From d582dc17e480ce9c5719f70bc0cdf5c55fb114dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:01 +0000
Subject: [PATCH 01/10] fix: listInsertFront loops forever when inserting
 before an existing front

The renumbering loop tested link->next, which never changes, so an insertion
anywhere but at the end of the list never terminated.
---
 src/linked_list.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linked_list.cxx b/src/linked_list.cxx
index 0176d41..2ee7dca 100755
--- a/src/linked_list.cxx
+++ b/src/linked_list.cxx
@@ -315,10 +315,9 @@ extern struct wetting_front* listInsertFront(double depth, double theta, int new
       link->next = previous->next ;
       previous->next = link;
 
-      while(link->next != NULL) { // increment all front numbers
-	current = link->next;
+      current = link->next;
+      while(current != NULL) { // increment all front numbers
 	current->front_num++;
-	previous = current;
 	current = current->next;
       }
 
-- 
2.43.0


From cea7cfaa75874f8e21ff1de6c703e0866bf59be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 02/10] fix: lgar_insert_water ignores water when ponding would
 land exactly on the maximum

With ponded_depth_max > 0 and a remaining depth equal to the maximum neither
branch was taken: nothing infiltrated and more than the maximum stayed ponded.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..c371ba0 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2069,7 +2069,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
       return runoff;
     }
-    else if (ponded_depth_temp > ponded_depth_max_cm ) {
+    else {
       runoff = ponded_depth_temp - ponded_depth_max_cm;
       *ponded_depth_cm     = ponded_depth_max_cm;
       *volin_this_timestep = fp_cm;
-- 
2.43.0


From 48341d23c200acf8fbb47f5b84dd68289e9fe7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 03/10] fix: frozen factor reads beyond the soil temperature
 profile

When an upper layer uses up the last cell the next layer read
soil_temperature_z[num_cells_temp].
---
 src/lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c371ba0..a72e49c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -824,7 +824,9 @@ extern void frozen_factor_hydraulic_conductivity(struct lgar_bmi_parameters lgar
     layer_temp = 0.0;
     count = 0;
 
-    while (lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
+    // the first condition ensures that cells outside the temperature profile are never read
+    while (c < lgar_bmi_params.num_cells_temp
+	   && lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
       layer_temp +=lgar_bmi_params.soil_temperature[c];
       c++;
       count++;
-- 
2.43.0


From 8c6c0168e6d2a4a9826c12197171c2dedd39734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 04/10] fix: use of a deleted wetting front when theta would
 fall below theta_r

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index a72e49c..b0f7efc 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1215,7 +1215,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //the idea here is that in some cases, the reduction in theta via WF movement or AET will be intense enough such that theta goes below theta_r.
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
-        listDeleteFront(current->front_num, head);
+        current = listDeleteFront(current->front_num, head); // current is gone, continue with the front that took its place
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
-- 
2.43.0


From aa05fdbe414f6facd5d8b015ccdcc86338057ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 05/10] fix: wilting point moisture computed from an
 uninitialised vg_m

---
 src/lgar.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index b0f7efc..fb3d018 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2306,6 +2306,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
     sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    vg_m = 1.0 - 1.0 / vg_n;
     length=strlen(soil_name);
 
     if(length>MAX_SOIL_NAME_CHARS) {
-- 
2.43.0


From 517790ce3b593d2ddc27c318a3059508b076f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 06/10] fix: soil names of 25 or more characters overflow the
 name buffers

---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index fb3d018..ebcdc2e 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2305,11 +2305,11 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    sscanf(jstr,"%29s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
     vg_m = 1.0 - 1.0 / vg_n;
     length=strlen(soil_name);
 
-    if(length>MAX_SOIL_NAME_CHARS) {
+    if(length>=MAX_SOIL_NAME_CHARS) {
       printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
 	     vG_param_file_name);
       printf("Program stopped.\n");
-- 
2.43.0


From f63fc492d30f3f1091fe71879f0efd07a5298ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 07/10] fix: GetGridShape writes beyond the shape of the rank-1
 wetting front grid

---
 src/bmi_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..9384c1c 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -823,7 +823,7 @@ GetGridShape(const int grid, int *shape)
   if (grid == 2)
     shape[0] = this->state->lgar_bmi_params.num_layers;
   else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+    shape[0] = this->state->lgar_bmi_params.num_wetting_fronts;
 }
 
 
-- 
2.43.0


From addd0f7fe1dcd2cf1c7ea92b33084376d3718583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:52 +0000
Subject: [PATCH 08/10] fix: cumulative groundwater discharge starts from an
 uninitialised value

---
 src/lgar.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ebcdc2e..c08b167 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -128,6 +128,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   state->lgar_mass_balance.volrunoff_cm              = 0.0;
   state->lgar_mass_balance.volrunoff_giuh_cm         = 0.0;
   state->lgar_mass_balance.volQ_cm                   = 0.0;
+  state->lgar_mass_balance.volQ_gw_cm                = 0.0;
   state->lgar_mass_balance.volPET_cm                 = 0.0;
   state->lgar_mass_balance.volon_cm                  = 0.0;
   state->lgar_mass_balance.volon_timestep_cm         = 0.0; /* setting volon and precip at the initial time to 0.0
-- 
2.43.0


From e149d1f0d4554a017503cccdbe3cc80f9b92e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:53 +0000
Subject: [PATCH 09/10] fix: listInsertFront follows a null link for number 1
 or a number beyond the list

---
 src/linked_list.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/linked_list.cxx b/src/linked_list.cxx
index 2ee7dca..a31ba77 100755
--- a/src/linked_list.cxx
+++ b/src/linked_list.cxx
@@ -299,6 +299,11 @@ extern struct wetting_front* listInsertFront(double depth, double theta, int new
     }
   }
   
+  if(new_front_num==1) { // the new front becomes the first one
+    listInsertFirst(depth, theta, new_front_num, layer_num, bottom_flag, head);
+    return *head;
+  }
+
   // list is not empty, so search through list
   previous = *head;
   do {
@@ -325,7 +330,9 @@ extern struct wetting_front* listInsertFront(double depth, double theta, int new
     }
 
     previous = previous->next;
-  } while(TRUE);
+  } while(previous != NULL);
+
+  return NULL; // no front with number new_front_num-1, unable to create
 
 }
 
-- 
2.43.0


From 58f34a6643ddc7ad60b93d64c80ca5507b22430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:54 +0000
Subject: [PATCH 10/10] fix: a new surface front in frozen soil gets a
 conductivity scaled twice by the frozen factor

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c08b167..a1f6326 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2155,7 +2155,7 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
   Se = calc_Se_from_theta(theta_new,theta_e,theta_r);
   current->psi_cm = calc_h_from_Se(Se, vg_alpha_per_cm , vg_m, vg_n);
 
-  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m) * frozen_factor[layer_num]; // AJ - K_temp in python version for 1st layer
+  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m); // AJ - K_temp in python version for 1st layer
 
   current->dzdt_cm_per_h = 0.0; //for now assign 0 to dzdt as it will be computed/updated in lgar_dzdt_calc function
 
-- 
2.43.0

