SEEDS = []
def S(id, prop, edits, demo, needs, breaks): SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
L = 'src/lgar.cxx'; B = 'src/bmi_lgar.cxx'; K = 'src/linked_list.cxx'; C = 'src/soil_funcs.cxx'; A = 'src/aet.cxx'; G = 'giuh/giuh.c'

S('giuh-shift-early', 'C06', [(G, "  for(i=1;i<N;i++)  // shift all", "  for(i=1;i<N && runoff_queue_m_per_timestep[i]>0.0;i++)  // shift all")],
  '''int main() { double o[4] = {0.5, 0.0, 0.3, 0.2}, q[5] = {0}; double out = 0, in = 0; double r[8] = {2, 0, 0, 1, 0, 0, 0, 0};
  for (int t = 0; t < 8; t++) { in += r[t]; out += giuh_convolution_integral(r[t], 4, o, q); double left = q[0] + q[1] + q[2] + q[3]; NEED(near_(in, out + left), "step %d: in %g out+queued %g", t, in, out + left); } return 0; }''',
  'a zero entry in the middle of the routing queue (a zero ordinate, or a dry spell)', 'entries behind an empty one are not moved forward and the last one is dropped: routed water is lost')
S('list-find-below-one', 'C11', [(K, "  while(current->front_num != key) { // as soon as front_num==key, this loop stops", "  while(current->front_num < key) { // the fronts are numbered in ascending order")],
  '''int main() { wetting_front *h = chain({fr(10, .3, 1, 1, false, 10), fr(44, .2, 1, 2, true, 100), fr(100, .2, 2, 3, true, 100)}); for (int k = -1; k <= 5; k++) { wetting_front *f = listFindFront(k, h, nullptr); NEED((k >= 1 && k <= 3) ? f && f->front_num == k : f == nullptr, "find %d", k); } return 0; }''',
  'searching for front number 0 (the front above the first)', 'a number below 1 finds the first front instead of nothing')
S('soil-K-exponent', 'C07', [(C, "  return (Ksat * sqrt(Se) * pow(1.0 - pow(1.0 - pow(Se,1.0/m), m), 2.0));", "  return (Ksat * sqrt(Se) * pow(1.0 - pow(1.0 - pow(fmax(Se,1.0e-4),1.0/m), m), 2.0));")],
  '''int main() { auto s = soil(.06, .4, .01, 1.47, .5); for (double S = 1e-8; S <= 1; S *= 3) { double a = calc_K_from_Se(S, s.Ksat_cm_per_h, s.vg_m), e = kk(S, s.Ksat_cm_per_h, s); NEED(fabs(a - e) <= 1e-9 * e + 1e-300, "Se %g K %g expected %g", S, a, e); } return 0; }''',
  'an almost dry front', 'conductivity of almost dry soil is off the Mualem curve')
S('aet-negative-head', 'C05', [(A, "  double h_ratio = 1.0 + pow(current->psi_cm/psi_wp_cm, 3.0);", "  double h_ratio = 1.0 + pow(fmin(current->psi_cm, wilting_point_psi_cm)/psi_wp_cm, 3.0);")],
  '''int main() { soil_properties_ sp[2]; sp[1] = soil(0.06, 0.4, 0.01, 1.47, 0.5); int st[2] = {0, 1}; wetting_front *f = fr(44, 0.1, 1, 1, true, 60000); double a = calc_aet(0.1, 0.5, 15495, 340.9, st, 0.85, 1, f, sp); 
  double p50 = hh(se(0.5 * (th(340.9, sp[1]) + th(15495, sp[1])), sp[1]), sp[1]), e = 0.05 / (1 + pow(60000 / p50, 3)); NEED(fabs(a - e) < 1e-12 + 1e-6 * e, "AET %g expected %g", a, e); return 0; }''',
  'a surface drier than the wilting point', 'AET stops decreasing below the wilting point, above the demand law')

S('drydepth-frozen', 'C22', [(L, "  tau  = timestep_h * Ksat_cm_per_h/(theta_e-current->theta);", "  tau  = timestep_h * soil_properties[soil_num].Ksat_cm_per_h/(theta_e-current->theta);")],
  """int main() { soil_properties_ sp[2]; sp[1] = soil(.06, .4, .01, 1.47, .5); int st[2] = {0, 1}; double cum[2] = {0, 44}, ff[2] = {1, 0.1}, dl; wetting_front *f = fr(44, .15, 1, 1, true, 500); double d = lgar_calc_dry_depth(true, 120, 0.1, &dl, st, cum, ff, f, sp);
  double Ks = sp[1].Ksat_cm_per_h * ff[1], tau = 0.1 * Ks / (.4 - .15), G = calc_Geff(true, .15, .4, .4, .06, .01, 1.47, sp[1].vg_m, sp[1].h_min_cm, Ks, 120, sp[1].bc_lambda, sp[1].bc_psib_cm), e = 0.5 * (tau + sqrt(tau * tau + 4 * tau * G)); NEED(near_(d, fmin(44, e)), "dry depth %g expected %g", d, e); return 0; }""",
  'a frozen top layer', 'dry depth of frozen soil uses the unfrozen conductivity')

S('merge-frozen-K', 'C08', [(L, "      Ksat_cm_per_h  = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];\n\n      current->psi_cm     = calc_h_from_Se(Se, vg_a, vg_m, vg_n);\n      current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m);\n      \n      if", "      Ksat_cm_per_h  = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[wf];\n\n      current->psi_cm     = calc_h_from_Se(Se, vg_a, vg_m, vg_n);\n      current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m);\n      \n      if")],
  """int main() { soil_properties_ sp[2]; sp[1] = soil(.06, .4, .01, 1.47, .5); int st[4] = {0, 1, 1, 1}; double ff[4] = {1, .3, .6, .9};
  wetting_front *h = chain({fr(10, .39, 1, 1, false, 5), fr(50, .38, 1, 2, false, 10), fr(46, .3, 1, 3, false, 20), fr(200, .1, 1, 4, true, 2000)}); lgar_merge_wetting_fronts(st, ff, &h, sp); double e = kk(se(.38, sp[1]), .5 * .3, sp[1]); NEED(near_(h->next->K_cm_per_h, e), "K %g expected %g", h->next->K_cm_per_h, e); return 0; }""",
  'frozen soil with different factors per layer and a merge at a front whose number differs from its layer', 'the merged front gets the conductivity of another layer\'s frozen factor')
S('theta-cap-top-layer', 'C13', [(L, "current->theta = fmax(theta_r, fmin(theta_e, prior_mass/current->depth_cm + next->theta));", "current->theta = fmax(theta_r, (current->to_bottom == FALSE && current->depth_cm < 1.0) ? prior_mass/current->depth_cm + next->theta : fmin(theta_e, prior_mass/current->depth_cm + next->theta));")],
  '''int main() { soil_properties_ sp[3]; sp[1] = soil(.06, .4, .01, 1.47, .5); sp[2] = soil(.05, .39, .03, 1.75, 4.32); int st[3] = {0, 1, 2}; double cum[3] = {0, 44, 175}, ff[3] = {1, 1, 1}; double t1 = th(1000, sp[1]), t2 = th(1000, sp[2]);
  auto mk = [&] { return chain({fr(.5, .395, 1, 1, false, hh(se(.395, sp[1]), sp[1]), .1, .1), fr(44, t1, 1, 2, true, 1000), fr(175, t2, 2, 3, true, 1000)}); };
  wetting_front *h = mk(), *q = mk(); double vol = 0.6, aet = 0, m0 = store(h, cum); lgar_move_wetting_fronts(1.0 / 12, &vol, 1, m0, 2, &aet, cum, st, ff, &h, q, sp);
  for (wetting_front *f = h; f; f = f->next) NEED(f->theta >= sp[st[f->layer_num]].theta_r - 1e-9 && f->theta <= sp[st[f->layer_num]].theta_e + 1e-9 && f->psi_cm >= 0, "front %d theta %g psi %g", f->front_num, f->theta, f->psi_cm); return 0; }''',
  'a shallow top-layer front that takes more water than its thickness can hold', 'the moisture of that front exceeds saturation')
S('calib-total-overwritten', 'C02', [(B, "state->lgar_mass_balance.volchange_calib_cm += volchange_calib_cm ;", "state->lgar_mass_balance.volchange_calib_cm = volchange_calib_cm ;")],
  '''int main(int c, char **v) { BmiLGAR m; m.Initialize(config(v[1], "calib_params=true\\n")); model_state *s = m.get_model(); auto &B = s->lgar_mass_balance; double start = B.volstart_cm; 
  for (int t = 0; t < 6; t++) { if (t == 0) { double e[3] = {0.45, 0.42, 0.46}; m.SetValue("smcmax", e); } forcing(m, t == 1 ? 2 : 0, 0.1); m.Update(); }
  double err = start + B.volprecip_cm - B.volrunoff_cm - B.volAET_cm - B.volon_cm - B.volrech_cm - B.volend_cm + B.volchange_calib_cm; NEED(fabs(err) < 1e-2, "global balance error %g", err); return 0; }''',
  'calibrated parameters and more than one update', 'the total of storage changed by calibration is forgotten by the next update; the global balance does not close')
S('adaptive-small-ponding', 'C18', [(B, "if (state->lgar_bmi_input_params->precipitation_mm_per_h > 10.0 || volon_timestep_cm > 0.0 )", "if (state->lgar_bmi_input_params->precipitation_mm_per_h > 10.0 || volon_timestep_cm > 0.05 )")],
  '''int main(int c, char **v) { BmiLGAR m; m.Initialize(config(v[1], "adaptive_timestep=true\\nponded_depth_max=0.04[cm]\\n")); model_state *s = m.get_model();
  for (int t = 0; t < 4; t++) { double pond = s->lgar_mass_balance.volon_timestep_cm, p = t == 0 ? 60 : t == 1 ? 0.5 : 0; forcing(m, p, 0); m.Update(); if (p > 10 || pond > 0) NEED(near_(s->lgar_bmi_params.timestep_h, s->lgar_bmi_params.minimum_timestep_h), "update %d with %g cm ponded used sub-step %g", t, pond, s->lgar_bmi_params.timestep_h); } return 0; }''',
  'adaptive sub-steps, a shallow pond (below 0.05 cm) left from a storm', 'the smallest sub-step is not used while water is ponded')
S('getvalue-index-short', 'C17', [(B, 'for (i=0, ptr=(char *)dest; i<len; i++, ptr+=itemsize) {', 'for (i=0, ptr=(char *)dest; i<len && i<this->GetGridSize(this->GetVarGrid(name)); i++, ptr+=itemsize) {')],
  '''int main(int c, char **v) { BmiLGAR m; m.Initialize(config(v[1])); double a[3], b[5] = {-1, -1, -1, -1, -1}; int ix[5] = {2, 0, 1, 2, 0}; m.GetValue("soil_moisture_wetting_fronts", a); m.GetValueAtIndices("soil_moisture_wetting_fronts", b, ix, 5); for (int i = 0; i < 5; i++) NEED(b[i] == a[ix[i]], "element %d: %g expected %g", i, b[i], a[ix[i]]); return 0; }''',
  'an index list longer than the variable (repeated indices)', 'the values after the first grid-size ones are not written')
S('check-dry-equal', 'C23', [(L, 'if ( (current->theta <= next->theta) && (current->layer_num == next->layer_num) )\n	return true;', 'if ( (current->theta < next->theta) && (current->layer_num == next->layer_num) )\n	return true;')],
  '''int main() { wetting_front *h = chain({fr(5, .2, 1, 1, false, 10), fr(10, .2, 1, 2, false, 10), fr(44, .1, 1, 3, true, 2000)}); NEED(lgar_check_dry_over_wet_wetting_fronts(h), "equal moistures not reported"); return 0; }''',
  'two neighbouring fronts of one layer with exactly equal moisture', 'the check does not report a pair that the repair would remove')
S('calib-layers-only', 'C21', [(B, 'for (int i=0; i<state->lgar_bmi_params.num_wetting_fronts; i++) {//first', 'for (int i=0; i<state->lgar_bmi_params.num_layers; i++) {//first')],
  '''int main(int c, char **v) { BmiLGAR m; m.Initialize(config(v[1], "calib_params=true\\n")); model_state *s = m.get_model(); for (int t = 0; t < 3; t++) { forcing(m, t == 0 ? 8 : t == 2 ? 5 : 0, 0.3); m.Update(); }
  NEED(s->lgar_bmi_params.num_wetting_fronts > 3, "demo setup: %d fronts", s->lgar_bmi_params.num_wetting_fronts); double n[3] = {1.6, 1.9, 1.3}; m.SetValue("van_genuchten_n", n); m.update_calibratable_parameters();
  for (wetting_front *f = s->head; f; f = f->next) { auto &q = s->soil_properties[s->lgar_bmi_params.layer_soil_type[f->layer_num]]; NEED(near_(q.vg_n, n[f->layer_num - 1]) && fabs(f->theta - th(f->psi_cm, q)) < 1e-6, "front %d theta %g, curve %g", f->front_num, f->theta, th(f->psi_cm, q)); } return 0; }''',
  'calibration parameters changed while there are more fronts than layers', 'fronts below the first L keep the moisture of the old soil')
S('table-hmin', 'C24', [(L, 'soil_properties[soil].h_min_cm = soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)', 'soil_properties[soil].h_min_cm = soil_properties[soil].bc_psib_cm*(2.0+3.0*lambda)')],
  '''int main(int c, char **v) { config(v[1]); soil_properties_ *sp = new soil_properties_[6]; std::string f = std::string(v[1]) + "/soil.dat"; lgar_read_vG_param_file(f.c_str(), 4, 15495, sp); double n[5] = {0, 1.47, 1.75, 1.42, 1.66}, a[5] = {0, .01, .03, .02, .01}; for (int i = 1; i <= 4; i++) { auto e = soil(.05, .4, a[i], n[i], 1); NEED(near_(sp[i].h_min_cm, e.h_min_cm), "soil %d h_min %g expected %g", i, sp[i].h_min_cm, e.h_min_cm); } return 0; }''',
  'any soil table', 'the derived minimum head of every soil is wrong')
S('dzdt-ponded-head', 'C14', [(L, '(Ksat_cm_per_h*(Geff+h_p)/current->depth_cm+current->K_cm_per_h);}', '(Ksat_cm_per_h*(Geff)/current->depth_cm+current->K_cm_per_h);}')],
  '''int main() { soil_properties_ sp[2]; sp[1] = soil(.06, .4, .01, 1.47, .5); int st[2] = {0, 1}; double cum[2] = {0, 100}, ff[2] = {1, 1}; double v[2]; for (int k = 0; k < 2; k++) { wetting_front *h = chain({fr(20, .35, 1, 1, false, hh(se(.35, sp[1]), sp[1]), .1), fr(100, .12, 1, 2, true, 1500)}); lgar_dzdt_calc(false, 120, k ? 3.0 : 0.0, st, cum, ff, h, sp); v[k] = h->dzdt_cm_per_h; } NEED(v[1] > v[0] * 1.0001, "velocity %g with 3 cm ponded, %g without", v[1], v[0]); return 0; }''',
  'ponded water on the surface', 'the ponded head does not speed up the front in the top layer')
S('aet-creating-substep', 'C01', [(B, "    AET_timestep_cm += AET_subtimestep_cm;", "    if (!create_surficial_front || volrunoff_subtimestep_cm == 0.0) AET_timestep_cm += AET_subtimestep_cm;")],
  '''int main(int c, char **v) { BmiLGAR m; m.Initialize(config(v[1], "", "44,131,25", "1,2,3", 50)); model_state *s = m.get_model(); auto &B = s->lgar_mass_balance; 
  for (int t = 0; t < 24; t++) { double p = t % 4 == 2 ? 120 : 0, on = B.volon_timestep_cm, e0 = lgar_calc_mass_bal(s->lgar_bmi_params.cum_layer_thickness_cm, s->head); forcing(m, p, 6); m.Update(); double e = e0 + B.volprecip_timestep_cm + on - B.volrunoff_timestep_cm - B.volAET_timestep_cm - B.volrech_timestep_cm - B.volon_timestep_cm - B.volend_timestep_cm; NEED(fabs(e) < 5e-3, "update %d: column out of balance by %g cm", t, e); } return 0; }''',
  'a storm that starts so hard that the sub-step creating a front already has runoff, while evapotranspiration goes on', 'ET of the sub-step that creates a front leaves the soil but is not reported')
S('storage-limit-bottom-only', 'C03', [(L, "  if (f_p > (max_storage - current_mass)/timestep_h){", "  if (layer_num_fp == num_layers && f_p > (max_storage - current_mass)/timestep_h){")],
  '''int main() { soil_properties_ sp[3]; sp[1] = soil(.06, .4, .01, 1.47, 5); sp[2] = soil(.05, .39, .03, 1.75, 4.32); int st[3] = {0, 1, 2}; double cum[3] = {0, 2, 4}, ff[3] = {1, 1, 1}; double t2 = th(1, sp[2]), tn = sp[1].theta_e - 1e-3;
  wetting_front *h = chain({fr(1, .4, 1, 1, false, 0), fr(2, tn, 1, 2, true, 1), fr(4, t2, 2, 3, true, 1)}); double room = 2 * .4 + 2 * .39 - store(h, cum), p = 3, in = 0; double r = lgar_insert_water(false, 120, 0.5, 0, &p, &in, 3, 1, 2, 0, st, cum, ff, h, sp);
  NEED(in <= room + 1e-9, "infiltration %g, free storage %g (runoff %g)", in, room, r); return 0; }''',
  'a nearly full profile whose free-drainage front is not in the deepest layer', 'infiltration exceeds the free storage of the profile')
S('create-drizzle-kept', 'C04', [(L, "      *ponded_depth_cm = 0.0;\n      //hp_cm =0.0;", "      if (*ponded_depth_cm > 1.0E-5) *ponded_depth_cm = 0.0;\n      //hp_cm =0.0;")],
  '''int main() { soil_properties_ sp[2]; sp[1] = soil(.06, .4, .01, 1.47, .5); int st[2] = {0, 1}; double cum[2] = {0, 44}, ff[2] = {1, 1}; for (double p = 1e-7; p < 2; p *= 3) { double t1 = .3; wetting_front *h = chain({fr(44, t1, 1, 1, true, 100)}); double a = store(h, cum), on = p, in = 0; lgar_create_surficial_front(1, &on, &in, 5, t1, st, cum, ff, &h, sp); double b = store(h, cum); NEED(fabs(b - a - in) < 1e-9 && fabs(p - in - on) < 1e-9, "pond %g: volin %g, storage rose by %g, left %g", p, in, b - a, on); } return 0; }''',
  'a new front created by a trace of rain', 'the water is put into the soil and stays on the surface as well')
S('cross-overshoot-bottom', 'C09', [(L, "      double overshot_depth = current->depth_cm - next->depth_cm;\n      int soil_num_next", "      double overshot_depth = (layer_num+1 == num_layers ? fmin(current->depth_cm, cum_layer_thickness_cm[num_layers]) : current->depth_cm) - next->depth_cm;\n      int soil_num_next")],
  '''int main() { soil_properties_ sp[3]; sp[1] = soil(.06, .4, .01, 1.47, .5); sp[2] = soil(.05, .39, .03, 1.75, 4.32); int st[3] = {0, 1, 2}; double cum[3] = {0, 10, 11}, ff[3] = {1, 1, 1}; 
  wetting_front *h = chain({fr(12.5, .3, 1, 1, false, hh(se(.3, sp[1]), sp[1])), fr(10, th(2000, sp[1]), 1, 2, true, 2000), fr(11, th(2000, sp[2]), 2, 3, true, 2000)}); double a = store(h, cum); lgar_wetting_fronts_cross_layer_boundary(2, cum, st, ff, &h, sp); double b = store(h, cum); NEED(near_(a, b), "storage %g before, %g after", a, b); return 0; }''',
  'a front that overshoots a thin bottom layer in one sub-step', 'water beyond the bottom of the domain is lost in the crossing')
S('bottom-flux-nonneg', 'C10', [(L, "      bottom_flux_cm_temp = (current->theta - next->theta) *  (current->depth_cm - next->depth_cm);", "      bottom_flux_cm_temp = fmax(current->theta - next->theta, 0.0) *  (current->depth_cm - next->depth_cm);")],
  '''int main() { soil_properties_ sp[2]; sp[1] = soil(.06, .4, .01, 1.47, .5); int st[2] = {0, 1}; double cum[2] = {0, 50}, ff[2] = {1, 1}; for (double t = .1; t < .38; t += .04) { wetting_front *h = chain({fr(53, t, 1, 1, false, hh(se(t, sp[1]), sp[1])), fr(50, .2, 1, 2, true, hh(se(.2, sp[1]), sp[1]))}); double a = store(h, cum), f = lgar_wetting_front_cross_domain_boundary(50, st, ff, &h, sp), b = store(h, cum); NEED(near_(a - b, f), "theta %g: flux %g, storage fell by %g", t, f, a - b); } return 0; }''',
  'a drier front over the bottom one reaching the bottom', 'the flux is not the change of the soil water')
S('mass-no-negative-jump', 'C12', [(L, "	  sum += (current->depth_cm - base_depth) * (current->theta - next->theta); // note", "	  sum += (current->depth_cm - base_depth) * (layer > 2 ? fmax(current->theta - next->theta, 0.0) : current->theta - next->theta); // note")],
  '''int main() { double cum[4] = {0, 20, 30, 60}; wetting_front *h = chain({fr(20, .2, 1, 1, true, 900), fr(30, .2, 2, 2, true, 900), fr(35, .15, 3, 3, false, 900), fr(45, .25, 3, 4, false, 100), fr(60, .1, 3, 5, true, 1000)}); double a = lgar_calc_mass_bal(cum, h), e = 30 * .2 + 5 * .15 + 10 * .25 + 15 * .1; NEED(near_(a, e), "storage %g expected %g", a, e); return 0; }''',
  'a drier front over a wetter one in the third layer or deeper', 'the storage is larger than the water in the profile')
S('frozen-floor-gap', 'C15', [(L, "    factor = fmax(fmin(factor,1.0), 0.05); // 0.05", "    factor = factor < 0.01 ? 0.05 : fmin(factor,1.0); // 0.05")],
  '''int main() { lgar_bmi_parameters q; q.num_layers = 1; double cum[2] = {0, 44}, ff[2] = {1, 1}, z[1] = {10}, T[1]; q.cum_layer_thickness_cm = cum; q.frozen_factor = ff; q.soil_temperature_z = z; q.soil_temperature = T; q.num_cells_temp = 1; for (double t = 271; t < 275; t += .05) { T[0] = t; frozen_factor_hydraulic_conductivity(q); double e = fmax(.05, fmin(1, exp(-10 * (273.15 - t)))); NEED(near_(ff[1], e), "T %g factor %g expected %g", t, ff[1], e); } return 0; }''',
  'a layer temperature between 0.3 and 0.46 K below freezing', 'the factor falls below its lower limit')
S('discharge-shared-pointer', 'C16', [(B, "    return (void*)(&bmi_unit_conv.volQ_timestep_m);", "    return (void*)(&bmi_unit_conv.volrunoff_giuh_timestep_m);")],
  '''int main(int c, char **v) { BmiLGAR m; m.Initialize(config(v[1])); forcing(m, 30, 0); m.Update(); double q = 7, r; void *a = m.GetValuePtr("total_discharge"); for (auto &n : m.GetOutputVarNames()) if (n != "total_discharge") NEED(m.GetValuePtr(n) != a, "total_discharge shares the storage of %s", n.c_str()); m.GetValue("giuh_runoff", &r); m.SetValue("total_discharge", &q); double r2; m.GetValue("giuh_runoff", &r2); NEED(r == r2, "setting total_discharge changed giuh_runoff"); return 0; }''',
  'setting or holding a pointer to one of the two outputs', 'the pointer of the discharge leads to the routed runoff')
S('export-count-grows-only', 'C19', [(B, "  state->lgar_bmi_params.num_wetting_fronts = listLength(state->head);\n\n  // allocate", "  if (volrech_timestep_cm <= 0.0) state->lgar_bmi_params.num_wetting_fronts = listLength(state->head);\n\n  // allocate")],
  '''int main(int c, char **v) { BmiLGAR m; m.Initialize(config(v[1], "", "4,6", "2,2", 100)); model_state *s = m.get_model(); for (int t = 0; t < 60; t++) { forcing(m, t % 7 == 0 ? 9 : t % 7 == 1 ? 4 : 0, 0.2); m.Update(); int n = 0; for (wetting_front *f = s->head; f; f = f->next, n++) NEED(n >= s->lgar_bmi_params.num_wetting_fronts || s->lgar_bmi_params.soil_moisture_wetting_fronts[n] == f->theta, "update %d front %d", t, n); NEED(n == s->lgar_bmi_params.num_wetting_fronts, "update %d: %d fronts, %d exported", t, n, s->lgar_bmi_params.num_wetting_fronts); } return 0; }''',
  'an update in which a front leaves through the bottom', 'the exported count is one too large after percolation')
S('init-frozen-soil-index', 'C20', [(L, "    Ksat_cm_per_h = frozen_factor[layer] * soil_properties[soil].Ksat_cm_per_h;\n    current->K", "    Ksat_cm_per_h = frozen_factor[soil] * soil_properties[soil].Ksat_cm_per_h;\n    current->K")],
  '''int main() { soil_properties_ sp[4]; for (int i = 1; i < 4; i++) sp[i] = soil(.06, .4, .01, 1.4 + .1 * i, .5 * i); int st[4] = {0, 3, 1, 2}; double cum[4] = {0, 10, 30, 70}, ff[4] = {1, .2, .5, 1}; wetting_front *h = nullptr; InitializeWettingFronts(3, 500, st, cum, ff, &h, sp); for (wetting_front *f = h; f; f = f->next) { auto &s = sp[st[f->layer_num]]; double e = kk(se(th(500, s), s), s.Ksat_cm_per_h * ff[f->layer_num], s); NEED(near_(f->K_cm_per_h, e), "layer %d K %g expected %g", f->layer_num, f->K_cm_per_h, e); } return 0; }''',
  'layers whose soil types are not numbered like the layers, with frozen factors that differ', 'initial conductivity uses the factor of another layer')
