#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);

static long g_upd = 0, g_end = 0, g_noinit = 0; struct Rep { ~Rep() {} }; void bmi_report(char *b, int n) { snprintf(b, n, "updates %ld, runs ended by the model's own guards %ld, not initialised %ld", g_upd, g_end, g_noinit); }
struct Run {
  BmiLGAR *m = nullptr; model_state *s = nullptr; World w; double res_h = 1, dt_h = 1, end_s = 0, pdmax = 0, fc = 340.9, wp = 15495, psi0 = 1000; bool adaptive = false, closed = false, sft = false, calib = false; std::vector<double> ord, q, zt; int nsoil = 0; double c_res = 0, c_dt = 0, c_end = 0;
  ~Run() { if (m) { if (s) { } delete m; } }
};
static std::string vec(const std::vector<double> &v, size_t from = 0) { std::string t; char b[64]; for (size_t i = from; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.9g", i > from ? "," : "", v[i]); t += b; } return t; }
static bool setup(Rng &r, Run &x, int flags = 0) {
  x.w = rand_world(r, 4); World &w = x.w; x.nsoil = w.sp.size() - 1;
  std::string sf = scratch + "/soil.dat", cf = scratch + "/cfg.txt";
  FILE *f = fopen(sf.c_str(), "w"); fprintf(f, "header\n");
  for (int i = 1; i <= x.nsoil; i++) fprintf(f, "\"s%d\"\t%.9g\t%.9g\t%.9g\t%.9g\t%.9g\n", i, w.sp[i].theta_r, w.sp[i].theta_e, w.sp[i].vg_alpha_per_cm, w.sp[i].vg_n, w.sp[i].Ksat_cm_per_h);
  fclose(f);
  static const double dts[] = {300, 150, 600, 900, 1200, 400, 700}, rs[] = {3600, 3600, 3600, 1800, 900};
  double res = rs[r.i(0, 4)], dt = dts[r.i(0, 6)]; if (dt > res) dt = res; if (r.p(0.1)) dt = res;
  x.adaptive = r.p(0.5); x.closed = r.p(0.5); x.pdmax = r.p(0.4) ? 0 : r.p(0.3) ? r.lu(1e-5, 2e-2) : r.lu(0.02, 4); x.sft = r.p(0.25); x.calib = r.p(0.3); x.psi0 = r.lu(20, 6000); x.fc = r.p(0.5) ? 340.9 : r.u(60, 500);
  double endt = r.p(0.2) ? res * r.u(1.2, 6) : 3600.0 * 5000; x.end_s = endt; int un = r.i(0, 2);
  std::vector<double> lay, typ; for (int l = 1; l <= w.L; l++) { lay.push_back(round((w.cum[l] - w.cum[l - 1]) * 100) / 100); typ.push_back(w.st[l]); }
  int ng = r.i(1, 6); std::vector<double> g(ng); double t = 0; for (auto &o : g) { o = r.p(0.2) ? 0 : r.u(0.01, 1); t += o; } if (t == 0) { g[0] = 1; t = 1; } for (auto &o : g) { o /= t; char b[64]; snprintf(b, sizeof b, "%.9g", o); o = atof(b); }
  f = fopen(cf.c_str(), "w");
  fprintf(f, "verbosity=none\nforcing_file=./x.csv\nsoil_params_file=%s\nlayer_thickness=%s[cm]\ninitial_psi=%.9g[cm]\n", sf.c_str(), vec(lay).c_str(), x.psi0);
  if (un == 0) fprintf(f, "timestep=%.9g[sec]\nendtime=%.9g[sec]\nforcing_resolution=%.9g[sec]\n", dt, endt, res); else if (un == 1) fprintf(f, "timestep=%.9g[min]\nendtime=%.9g[hr]\nforcing_resolution=%.9g[min]\n", dt / 60, endt / 3600, res / 60); else fprintf(f, "timestep=%.9g\nendtime=%.9g[day]\nforcing_resolution=%.9g[h]\n", dt, endt / 86400, res / 3600);
  fprintf(f, "ponded_depth_max=%.9g[cm]\nuse_closed_form_G=%s\nlayer_soil_type=%s\nmax_valid_soil_types=%d\nwilting_point_psi=15495.0[cm]\nfield_capacity_psi=%.9g[cm]\ngiuh_ordinates=%s\nadaptive_timestep=%s\ncalib_params=%s\nsft_coupled=%s\n", x.pdmax, x.closed ? "true" : "false", vec(typ).c_str(), x.nsoil, x.fc, vec(g).c_str(), x.adaptive ? "true" : "false", x.calib ? "true" : "false", x.sft ? "true" : "false");
  double tot = 0; for (double d : lay) tot += d;
  if (x.sft) { int n = 4 * w.L + 2; for (int i = 1; i <= n; i++) x.zt.push_back(round(tot * i / n * 1000) / 1000); fprintf(f, "soil_z=%s[cm]\n", vec(x.zt).c_str()); }
  fclose(f);
  x.c_res = res / 3600; x.c_dt = dt / 3600; x.c_end = endt;
  x.m = new BmiLGAR; if (!call([&] { x.m->Initialize(cf); })) { return false; }
  x.s = x.m->get_model(); x.res_h = x.s->lgar_bmi_params.forcing_resolution_h; x.dt_h = x.s->lgar_bmi_params.minimum_timestep_h; x.end_s = x.s->lgar_bmi_params.endtime_s;
  w.cum.assign(w.L + 1, 0); for (int l = 1; l <= w.L; l++) w.cum[l] = w.cum[l - 1] + lay[l - 1];
  int fac = int(1.0 / x.res_h); for (double o : g) for (int j = 0; j < fac; j++) x.ord.push_back(o / fac); x.q.assign(x.ord.size() + 1, 0);
  return true;
}
static double conv(Run &x, double in) { size_t n = x.ord.size(); if (!n) return 0; for (size_t i = 0; i < n; i++) x.q[i] += x.ord[i] * in; double o = x.q[0]; for (size_t i = 0; i + 1 < x.q.size(); i++) x.q[i] = x.q[i + 1]; x.q.back() = 0; return o; }
struct Forcing { Rng &r; int left = 0, kind = 0; double amp = 0, pet = 0; void next(double &p, double &e) { if (left-- <= 0) { left = r.i(1, 8); kind = r.i(0, 5); amp = kind == 3 ? r.lu(0.1, 10) : kind == 4 ? r.lu(10, 60) : kind == 5 ? r.lu(60, 900) : 0; pet = r.p(0.4) ? 0 : r.lu(0.01, r.p(0.1) ? 8 : 1.2); } p = kind < 3 ? 0 : amp * (r.p(0.2) ? 0 : r.u(0.2, 1)); if (r.p(0.05) && kind > 2) p = 10.0; e = pet; } };
static void soils(Run &x) { for (int l = 1; l <= x.w.L; l++) { x.w.sp[x.w.st[l]] = x.s->soil_properties[x.w.st[l]]; } }
static void newcalib(Rng &r, Run &x) {   // random new parameter values through BMI
  int L = x.w.L; std::vector<double> v(L); auto set = [&](const char *n, std::function<double()> f) { for (auto &y : v) y = f(); if (r.p(0.85)) x.m->SetValue(n, v.data()); };
  set("smcmax", [&] { return r.u(0.3, 0.55); }); set("smcmin", [&] { return r.u(0.02, 0.12); }); set("van_genuchten_n", [&] { return r.u(1.1, 2.8); }); set("van_genuchten_alpha", [&] { return r.lu(0.002, 0.15); }); set("hydraulic_conductivity", [&] { return r.lu(0.05, 20); });
  double a = r.u(80, 500), b = r.p(0.5) ? 0 : r.p(0.3) ? r.lu(1e-5, 1e-2) : r.u(0, 3); x.m->SetValue("field_capacity", &a); x.m->SetValue("ponded_depth_max", &b);
}
static double mget(Run &x, const char *n) { double d = 0; x.m->GetValue(n, &d); return d; }

static void c16names(Rng &r, Run &x); static void c17run(Rng &r, Run &x);
static void chk19(Run &x, const char *when) {
  Prof g = snap(x.s->head); auto &P = x.s->lgar_bmi_params; REQ(P.num_wetting_fronts == (int)g.size(), "%s: exported count %d, fronts %zu", when, P.num_wetting_fronts, g.size());
  REQ(P.soil_moisture_wetting_fronts && P.soil_depth_wetting_fronts, "%s: arrays missing", when);
  REQ(__sanitizer_get_allocated_size(P.soil_moisture_wetting_fronts) == 8 * g.size() && __sanitizer_get_allocated_size(P.soil_depth_wetting_fronts) == 8 * g.size(), "%s: array sizes %zu %zu for %zu fronts", when, __sanitizer_get_allocated_size(P.soil_moisture_wetting_fronts), __sanitizer_get_allocated_size(P.soil_depth_wetting_fronts), g.size());
  int n = 0; x.m->GetValue("soil_num_wetting_fronts", &n); REQ(n == (int)g.size(), "%s: soil_num_wetting_fronts %d", when, n); std::vector<double> a(n), b(n); x.m->GetValue("soil_moisture_wetting_fronts", a.data()); x.m->GetValue("soil_depth_wetting_fronts", b.data());
  for (int i = 0; i < n; i++) { REQ(a[i] == g[i].theta, "%s: moisture %d exported %.10g is %.10g", when, i, a[i], g[i].theta); REQ(close_(b[i], g[i].depth * 0.01, 1e-12), "%s: depth %d exported %.10g is %.10g cm", when, i, b[i], g[i].depth); }
}
static void chk13(Run &x, const char *when) {
  soils(x); Prof g = snap(x.s->head); for (auto &f : g) { REQ(f.layer >= 1 && f.layer <= x.w.L, "%s: layer %d\n%s", when, f.layer, show(g).c_str()); auto &s = x.w.soil(f.layer); REQ(f.theta >= s.theta_r - 1e-9 && f.theta <= s.theta_e + 1e-9, "%s: moisture %.12g outside [%.12g,%.12g]\n%s", when, f.theta, s.theta_r, s.theta_e, show(g).c_str()); REQ(f.psi >= -1e-9, "%s: head %g\n%s", when, f.psi, show(g).c_str()); }
}
static void c21step(Rng &r, Run &x) {
  newcalib(r, x); Prof p0 = snap(x.s->head); double st0 = o_store(p0, x.w.cum), ret = 0; auto &C = x.s->lgar_calib_params; int L = x.w.L; std::vector<std::vector<double>> v; for (double *a : {C.theta_e, C.theta_r, C.vg_n, C.vg_alpha, C.Ksat}) v.push_back(std::vector<double>(a, a + L)); double fc = C.field_capacity_psi, pm = C.ponded_depth_max;
  if (!call([&] { ret = x.m->update_calibratable_parameters(); })) fail("calibration aborted (%s)", last_end.c_str());
  Prof g = snap(x.s->head); auto *sp = x.s->soil_properties;
  for (int l = 1; l <= L; l++) { auto &s = sp[x.w.st[l]]; int i = l - 1; REQ(s.theta_e == v[0][i] && s.theta_r == v[1][i] && s.vg_n == v[2][i] && s.vg_alpha_per_cm == v[3][i] && s.Ksat_cm_per_h == v[4][i] && close_(s.vg_m, 1 - 1 / v[2][i], 1e-12), "layer %d soil does not take the new parameters", l); }
  REQ(x.s->lgar_bmi_params.field_capacity_psi_cm == fc && x.s->lgar_bmi_params.ponded_depth_max_cm == pm, "field capacity %g (%g) ponding limit %g (%g)", x.s->lgar_bmi_params.field_capacity_psi_cm, fc, x.s->lgar_bmi_params.ponded_depth_max_cm, pm);
  REQ(g.size() == p0.size(), "front count"); soils(x); for (size_t i = 0; i < g.size(); i++) { REQ(g[i].depth == p0[i].depth && g[i].psi == p0[i].psi && g[i].layer == p0[i].layer && g[i].bot == p0[i].bot && g[i].num == p0[i].num, "front %zu changed more than its moisture", i + 1); REQ(close_(g[i].theta, o_theta(g[i].psi, x.w.soil(g[i].layer)), 1e-9), "front %zu moisture %.10g expected %.10g", i + 1, g[i].theta, o_theta(g[i].psi, x.w.soil(g[i].layer))); }
  REQ(close_(ret, o_store(g, x.w.cum) - st0, 1e-8, 1e-9), "reported change %.12g, storage change %.12g", ret, o_store(g, x.w.cum) - st0); x.fc = fc; x.pdmax = pm;
}

static void run(Rng &r, int what) {
  Run x; if (!setup(r, x)) { g_noinit++; return; } auto &B = x.s->lgar_mass_balance; auto &P = x.s->lgar_bmi_params;
  if (what == 19) chk19(x, "after initialisation"); if (what == 13) chk13(x, "after initialisation"); if (what == 21) { auto &C = x.s->lgar_calib_params; for (int l = 1; l <= x.w.L; l++) { auto &y = x.s->soil_properties[x.w.st[l]]; int i = l - 1; REQ(C.theta_e[i] == y.theta_e && C.theta_r[i] == y.theta_r && C.vg_n[i] == y.vg_n && C.vg_alpha[i] == y.vg_alpha_per_cm && C.Ksat[i] == y.Ksat_cm_per_h, "after initialisation: calibration parameters of layer %d are not those of its soil", l); } REQ(C.field_capacity_psi == P.field_capacity_psi_cm && C.ponded_depth_max == P.ponded_depth_max_cm, "after initialisation: calibration limits are not the configured ones"); if (r.p(0.3)) c21step(r, x); }
  if (what == 2) { REQ(B.volprecip_cm == 0 && B.volin_cm == 0 && B.volon_cm == 0 && B.volAET_cm == 0 && B.volPET_cm == 0 && B.volrech_cm == 0 && B.volrunoff_cm == 0 && B.volrunoff_giuh_cm == 0 && B.volQ_cm == 0 && B.volQ_gw_cm == 0 && B.volchange_calib_cm == 0, "totals do not start at zero"); REQ(close_(B.volstart_cm, o_store(snap(x.s->head), x.w.cum)), "start storage"); }
  if (what == 16) { c16names(r, x); }
  if (what == 18) { REQ(close_(x.res_h, x.c_res, 1e-7) && close_(x.dt_h, x.c_dt, 1e-7) && close_(x.end_s, x.c_end, 1e-7), "after initialisation: interval %.10g h (configured %.10g), sub-step %.10g h (%.10g), end %.10g s (%.10g)", x.res_h, x.c_res, x.dt_h, x.c_dt, x.end_s, x.c_end); REQ(P.time_s == 0 && P.timesteps == 0, "after initialisation: the clock is not at zero"); }
  if (what == 20) { soils(x); Prof g = snap(x.s->head); REQ((int)g.size() == x.w.L, "after initialisation: %zu fronts for %d layers", g.size(), x.w.L); for (int i = 0; i < x.w.L; i++) { auto &y = x.w.soil(i + 1); double th = o_theta(x.psi0, y); REQ(g[i].layer == i + 1 && g[i].bot && close_(g[i].depth, x.w.cum[i + 1], 1e-9) && close_(g[i].psi, x.psi0, 1e-8) && close_(g[i].theta, th, 1e-8) && close_(g[i].K, o_K(o_setheta(th, y), y.Ksat_cm_per_h, y.vg_m), 1e-5, 1e-14), "after initialisation: layer %d %s (psi %g theta %.10g)", i + 1, show(g).c_str(), x.psi0, th); } return; }
  if (what == 2 && r.p(0.15)) {   // pass-through mode
    P.is_invalid_soil_type = true; Prof p0 = snap(x.s->head); double tot = 0; for (int k = 0; k < 5; k++) { double p = r.p(0.3) ? 0 : r.lu(0.1, 50), e = r.u(0, 1); x.m->SetValue("precipitation_rate", &p); x.m->SetValue("potential_evapotranspiration_rate", &e); if (!call([&] { x.m->Update(); })) fail("pass-through aborted"); tot += p * 0.1;
      for (const char *n : {"precipitation", "surface_runoff", "total_discharge"}) REQ(close_(mget(x, n), p * 0.001), "pass-through %s %.10g for %.10g mm", n, mget(x, n), p); for (const char *n : {"infiltration", "actual_evapotranspiration", "percolation", "groundwater_to_stream_recharge", "mass_balance"}) REQ(mget(x, n) == 0, "pass-through %s %g", n, mget(x, n));
      REQ(close_(B.volprecip_cm, tot) && close_(B.volrunoff_cm, tot) && close_(B.volQ_cm, tot), "pass-through totals %.10g %.10g %.10g, rain %.10g", B.volprecip_cm, B.volrunoff_cm, B.volQ_cm, tot); REQ(B.volin_cm == 0 && B.volAET_cm == 0 && B.volrech_cm == 0 && B.volon_cm == 0 && close_(B.volend_cm, B.volstart_cm), "pass-through changes other totals"); }
    Prof g = snap(x.s->head); REQ(g.size() == p0.size(), "pass-through profile"); for (size_t i = 0; i < g.size(); i++) REQ(g[i].theta == p0[i].theta && g[i].depth == p0[i].depth, "pass-through profile"); return;
  }
  Forcing F{r}; int n = r.i(4, r.p(0.2) ? 120 : 30); if (x.calib) newcalib(r, x); bool cal = x.calib;
  std::vector<double> T; 
  for (int k = 0; k < n; k++) {
    double p, e; F.next(p, e); x.m->SetValue("precipitation_rate", &p); x.m->SetValue("potential_evapotranspiration_rate", &e);
    if (x.sft) { T.assign(x.zt.size(), 0); bool cold = r.p(0.4); for (auto &t : T) t = 273.15 + (cold ? r.u(-1, 0.2) : r.u(0, 8)); x.m->SetValue("soil_temperature_profile", T.data()); }
    if (r.p(what == 2 ? 0.15 : 0.03)) { newcalib(r, x); P.calib_params_flag = true; cal = true; }
    lgar_mass_balance_variables b0 = B; double t0 = P.time_s, n0 = P.timesteps, st0 = o_store(snap(x.s->head), x.w.cum); if (what == 21) if (r.p(0.1)) c21step(r, x); st0 = o_store(snap(x.s->head), x.w.cum);
    double dcal = 0; if (P.calib_params_flag) { Prof q = snap(x.s->head); auto &C = x.s->lgar_calib_params; for (auto &f : q) { soil_properties_ y = x.s->soil_properties[x.w.st[f.layer]]; int i = f.layer - 1; y.theta_e = C.theta_e[i]; y.theta_r = C.theta_r[i]; y.vg_n = C.vg_n[i]; y.vg_m = 1 - 1 / y.vg_n; y.vg_alpha_per_cm = C.vg_alpha[i]; f.theta = o_theta(f.psi, y); } dcal = o_store(q, x.w.cum) - st0; }
    Prof pb = snap(x.s->head); int pondbefore = b0.volon_timestep_cm > 0;
    if (!call([&] { if (r.p(0.5)) x.m->Update(); else x.m->UpdateUntil(P.time_s + x.res_h * 3600); })) { g_end++; if (what == 19 && last_end.find("NULL") != std::string::npos) fail("update %d: a front of the export does not exist (%s)", k, last_end.c_str()); return; } g_upd++;
    double sub = P.timesteps - n0, h = P.timestep_h, dS = B.volchange_calib_cm - b0.volchange_calib_cm; Prof g = snap(x.s->head); double st1 = o_store(g, x.w.cum);
    if (cal) { x.fc = P.field_capacity_psi_cm; x.pdmax = P.ponded_depth_max_cm; cal = false; }
    if (what == 1) {
      REQ(close_(B.volprecip_timestep_cm + b0.volon_timestep_cm, B.volin_timestep_cm + B.volrunoff_timestep_cm + B.volon_timestep_cm, 1e-10, 1e-10 + 2e-12 * sub), "update %d: rain %.12g + ponded %.12g != in %.12g + runoff %.12g + ponded %.12g", k, B.volprecip_timestep_cm, b0.volon_timestep_cm, B.volin_timestep_cm, B.volrunoff_timestep_cm, B.volon_timestep_cm);
      REQ(close_(B.volend_timestep_cm, st1, 1e-9), "update %d: storage reported %.12g is %.12g", k, B.volend_timestep_cm, st1);
      double err = st0 + dS + B.volprecip_timestep_cm + b0.volon_timestep_cm - B.volrunoff_timestep_cm - B.volAET_timestep_cm - B.volrech_timestep_cm - B.volon_timestep_cm - st1; REQ(fabs(err) <= 1.001e-4 * sub + 1e-9, "update %d: column balance off by %.6g over %g sub-steps", k, err, sub);
      double el = sub * h; REQ(close_(B.volprecip_timestep_cm, p * 0.1 * el, 1e-9, 1e-12) && close_(B.volPET_timestep_cm, e * 0.1 * el, 1e-9, 1e-12), "update %d: rain or PET is not the total over the sub-steps", k);
      REQ(B.volAET_timestep_cm <= B.volPET_timestep_cm + 1e-12 && B.volAET_timestep_cm >= 0, "update %d: AET %g PET %g", k, B.volAET_timestep_cm, B.volPET_timestep_cm);
      REQ(B.volin_timestep_cm >= -1e-9 && B.volrunoff_timestep_cm >= 0 && B.volon_timestep_cm >= -1e-12 && B.volon_timestep_cm <= P.ponded_depth_max_cm + 1e-9, "update %d: in %g runoff %g ponded %g (max %g)", k, B.volin_timestep_cm, B.volrunoff_timestep_cm, B.volon_timestep_cm, P.ponded_depth_max_cm);
    }
    if (what == 1 || what == 2) REQ(close_(dS, dcal, 1e-8, 1e-9), "update %d: calibration change %.12g expected %.12g", k, dS, dcal);
    if (what == 5 && sub == 1) { auto &y = x.s->soil_properties[x.w.st[pb[0].layer]]; double th50 = 0.5 * (o_theta(P.field_capacity_psi_cm, y) + o_theta(x.wp, y)), p50 = o_h(o_setheta(th50, y), y), d = e * 0.1 * h / (1 + pow(pb[0].psi / p50, 3)); REQ(B.volAET_timestep_cm <= d * (1 + 1e-6) + 1e-12, "update %d: AET %.12g above the demand %.12g (psi %g psi50 %g)", k, B.volAET_timestep_cm, d, pb[0].psi, p50); }
    if (what == 15 && x.sft) { size_t c = 0; for (int l = 1; l <= x.w.L; l++) { double t = 0; int kk = 0; while (c < x.zt.size() && x.zt[c] <= P.cum_layer_thickness_cm[l]) { t += T[c++]; kk++; } if (!kk) break; double f = fmin(1.0, fmax(0.05, exp(-10 * (273.15 - t / kk)))); REQ(close_(P.frozen_factor[l], f, 1e-9), "update %d: layer %d factor %.12g expected %.12g", k, l, P.frozen_factor[l], f); } }
    if (what == 6) { double gi = conv(x, B.volrunoff_timestep_cm); REQ(close_(B.volrunoff_giuh_timestep_cm, gi, 1e-10, 1e-12), "update %d after initialisation: routed runoff %.12g expected %.12g", k, B.volrunoff_giuh_timestep_cm, gi); }
    if (what == 2) {
      double gi = conv(x, B.volrunoff_timestep_cm);
#define CUM(c, t) REQ(close_(B.c, b0.c + B.t, 1e-11, 1e-12), "update %d: " #c " %.12g != %.12g + %.12g", k, B.c, b0.c, B.t)
      CUM(volprecip_cm, volprecip_timestep_cm); CUM(volin_cm, volin_timestep_cm); CUM(volrunoff_cm, volrunoff_timestep_cm); CUM(volAET_cm, volAET_timestep_cm); CUM(volPET_cm, volPET_timestep_cm); CUM(volrech_cm, volrech_timestep_cm); CUM(volrunoff_giuh_cm, volrunoff_giuh_timestep_cm); CUM(volQ_cm, volQ_timestep_cm); CUM(volQ_gw_cm, volQ_gw_timestep_cm);
      REQ(B.volon_cm == B.volon_timestep_cm && B.volend_cm == B.volend_timestep_cm, "update %d: ponding or storage is not the latest", k); REQ(close_(B.volrunoff_giuh_timestep_cm, gi, 1e-9, 1e-12) && close_(B.volQ_timestep_cm, gi, 1e-9, 1e-12), "update %d: routed runoff %.12g Q %.12g expected %.12g", k, B.volrunoff_giuh_timestep_cm, B.volQ_timestep_cm, gi);
      REQ(close_(B.volend_cm, st1, 1e-9), "update %d: storage", k);
#define OUT(n, t) REQ(close_(mget(x, n), B.t * 0.01, 1e-12, 1e-15), "update %d: %s %.12g m, %.12g cm", k, n, mget(x, n), B.t)
      OUT("precipitation", volprecip_timestep_cm); OUT("infiltration", volin_timestep_cm); OUT("surface_runoff", volrunoff_timestep_cm); OUT("actual_evapotranspiration", volAET_timestep_cm); OUT("potential_evapotranspiration", volPET_timestep_cm); OUT("percolation", volrech_timestep_cm); OUT("giuh_runoff", volrunoff_giuh_timestep_cm); OUT("total_discharge", volQ_timestep_cm); OUT("groundwater_to_stream_recharge", volQ_gw_timestep_cm); OUT("soil_storage", volend_timestep_cm); OUT("mass_balance", local_mass_balance);
    }
    if (what == 18) {
      double want = P.minimum_timestep_h; if (x.adaptive) { want = x.res_h; if (p > 10.0 || pondbefore) want = x.dt_h; else if (p > 0) want = 2 * x.dt_h; want = fmin(want, x.res_h); } else want = x.dt_h;
      REQ(close_(h, want, 1e-12), "update %d: sub-step %.10g h expected %.10g (rain %g ponded %g adaptive %d)", k, h, want, p, b0.volon_timestep_cm, x.adaptive); REQ(h <= x.res_h * (1 + 1e-12), "update %d: sub-step longer than the forcing interval", k);
      int full = int(x.res_h / want + 1e-8), c = 0; double t = t0; while (c < full) { t += want * 3600; c++; if (t >= x.end_s) break; }
      REQ(sub == c, "update %d: %g sub-steps expected %d", k, sub, c); REQ(close_(P.time_s, t, 1e-12, 1e-6) && close_(x.m->GetCurrentTime(), P.time_s, 0, 0), "update %d: time %.6f expected %.6f", k, P.time_s, t);
      double el = c * want; REQ(close_(B.volprecip_timestep_cm, p * 0.1 * el, 1e-9, 1e-12), "update %d: rain %.12g expected %.12g", k, B.volprecip_timestep_cm, p * 0.1 * el); REQ(close_(B.volPET_timestep_cm, e * 0.1 * el, 1e-9, 1e-12), "update %d: PET %.12g expected %.12g", k, B.volPET_timestep_cm, e * 0.1 * el);
      REQ(mget(x, "precipitation_rate") == p && mget(x, "potential_evapotranspiration_rate") == e, "update %d: forcing changed", k);
    }
    if (what == 19) chk19(x, "after an update"); if (what == 13) chk13(x, "after an update"); if (what == 16 && k < 3) c16names(r, x); if (what == 17 && k < 6) c17run(r, x); if (what == 21 && r.p(0.1)) c21step(r, x);
  }
  if (what == 2) {   // printed balance
    std::string fn = scratch + "/out.txt"; fflush(stdout); int so = dup(1), fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); bool ok = call([&] { x.m->global_mass_balance(); }); fflush(stdout); dup2(so, 1); close(so);
    if (!ok) fail("global balance ended"); std::ifstream in(fn); std::string line; double want = B.volstart_cm + B.volprecip_cm - B.volrunoff_cm - B.volAET_cm - B.volon_cm - B.volrech_cm - B.volend_cm + B.volchange_calib_cm, v; bool seen = false;
    while (std::getline(in, line)) { auto has = [&](const char *t) { return line.find(t) == 0 && sscanf(line.c_str() + line.find('=') + 1, "%lf", &v) == 1; }; if (has("Global balance")) { seen = true; REQ(close_(v, want, 1e-5, 1e-9), "printed global balance %.8e expected %.8e", v, want); } else if (has("Total precipitation")) REQ(close_(v, B.volprecip_cm, 1e-9, 1e-9), "printed rain"); else if (has("Surface runoff")) REQ(close_(v, B.volrunoff_cm, 1e-9, 1e-9), "printed runoff"); else if (has("Total AET")) REQ(close_(v, B.volAET_cm, 1e-9, 1e-9), "printed AET"); else if (has("Total percolation")) REQ(close_(v, B.volrech_cm, 1e-9, 1e-9), "printed percolation"); else if (has("Final water in soil")) REQ(close_(v, B.volend_cm, 1e-9, 1e-9), "printed storage"); }
    REQ(seen, "no global balance printed");
  }
}

struct Var { const char *name; int grid; const char *units, *loc; };
static const Var vars[] = {{"precipitation_rate", 1, "mm h^-1", "node"}, {"potential_evapotranspiration_rate", 1, "mm h^-1", "node"}, {"soil_temperature_profile", 4, "K", "node"}, {"soil_moisture_wetting_fronts", 3, "none", "node"}, {"soil_depth_layers", 2, "m", "node"}, {"soil_depth_wetting_fronts", 3, "m", "node"}, {"soil_num_wetting_fronts", 0, "none", "node"}, {"precipitation", 1, "m", "node"}, {"potential_evapotranspiration", 1, "m", "node"}, {"actual_evapotranspiration", 1, "m", "node"}, {"surface_runoff", 1, "m", "node"}, {"giuh_runoff", 1, "m", "node"}, {"soil_storage", 1, "m", "node"}, {"total_discharge", 1, "m", "node"}, {"infiltration", 1, "m", "node"}, {"percolation", 1, "m", "node"}, {"groundwater_to_stream_recharge", 1, "m", "node"}, {"mass_balance", 1, "m", "node"}, {"smcmax", 2, "none", "none"}, {"smcmin", 2, "none", "none"}, {"van_genuchten_n", 2, "none", "none"}, {"van_genuchten_alpha", 2, "none", "none"}, {"hydraulic_conductivity", 2, "none", "none"}, {"field_capacity", 1, "none", "none"}, {"ponded_depth_max", 1, "none", "none"}};
static int gsize(Run &x, int g) { auto &P = x.s->lgar_bmi_params; return g == 2 ? P.num_layers : g == 3 ? P.num_wetting_fronts : g == 4 ? P.num_cells_temp : 1; }
static void c16names(Rng &r, Run &x) {
  auto in = x.m->GetInputVarNames(), out = x.m->GetOutputVarNames(); REQ(in.size() == 3 && x.m->GetInputItemCount() == 3 && out.size() == 15 && x.m->GetOutputItemCount() == 15, "%zu inputs %zu outputs", in.size(), out.size());
  for (auto &l : {in, out}) for (auto &n : l) { bool f = false; for (auto &v : vars) if (n == v.name) f = true; REQ(f, "advertised variable %s unknown", n.c_str()); }
  for (int i = 0; i < 18; i++) { bool f = false; for (auto &n : i < 3 ? in : out) if (n == vars[i].name) f = true; REQ(f, "%s is not advertised", vars[i].name); }
  std::vector<std::pair<char *, size_t>> mem; auto &P = x.s->lgar_bmi_params; auto &C = x.s->lgar_calib_params; auto *I = x.s->lgar_bmi_input_params;
  for (auto &v : vars) {
    int g = x.m->GetVarGrid(v.name), sz = v.grid == 0 ? 4 : 8, n = gsize(x, v.grid); REQ(g == v.grid, "%s grid %d expected %d", v.name, g, v.grid); REQ(x.m->GetVarType(v.name) == (v.grid ? "double" : "int"), "%s type", v.name); REQ(x.m->GetVarItemsize(v.name) == sz, "%s item size", v.name); REQ(x.m->GetVarNbytes(v.name) == sz * n, "%s bytes %d expected %d", v.name, x.m->GetVarNbytes(v.name), sz * n); REQ(x.m->GetGridSize(g) == n && x.m->GetGridRank(g) == 1, "%s grid size or rank", v.name);
    REQ(x.m->GetVarUnits(v.name) == v.units, "%s units %s", v.name, x.m->GetVarUnits(v.name).c_str()); REQ(x.m->GetVarLocation(v.name) == v.loc, "%s location", v.name);
    char *p = nullptr; if (!call([&] { p = (char *)x.m->GetValuePtr(v.name); }) || !p) fail("%s has no value", v.name); size_t len = (size_t)sz * n; for (auto &q : mem) REQ(p + len <= q.first || q.first + q.second <= p, "%s shares storage with another variable", v.name); mem.push_back({p, len});
    volatile char t = p[0]; t = p[len - 1]; (void)t;
    int shape[2] = {-7, -7}; x.m->GetGridShape(g, shape); REQ(shape[1] == -7 && (g == 2 || g == 3 ? shape[0] == n : true), "grid %d shape", g);
  }
  auto own = [&](const char *n, void *p) { REQ(x.m->GetValuePtr(n) == p, "%s does not lead to its own storage", n); };
  own("precipitation_rate", &I->precipitation_mm_per_h); own("potential_evapotranspiration_rate", &I->PET_mm_per_h); own("soil_temperature_profile", P.soil_temperature); own("soil_moisture_wetting_fronts", P.soil_moisture_wetting_fronts); own("soil_depth_wetting_fronts", P.soil_depth_wetting_fronts); own("soil_num_wetting_fronts", &P.num_wetting_fronts); own("soil_depth_layers", P.cum_layer_thickness_cm); own("smcmax", C.theta_e); own("smcmin", C.theta_r); own("van_genuchten_n", C.vg_n); own("van_genuchten_alpha", C.vg_alpha); own("hydraulic_conductivity", C.Ksat); own("field_capacity", &C.field_capacity_psi); own("ponded_depth_max", &C.ponded_depth_max);
  if (P.timesteps > 0) { auto &B = x.s->lgar_mass_balance; auto o = [&](const char *n, double cm) { REQ(close_(*(double *)x.m->GetValuePtr(n), 0.01 * cm, 1e-11, 1e-15), "%s is %.12g, the update's value %.12g cm", n, *(double *)x.m->GetValuePtr(n), cm); }; o("precipitation", B.volprecip_timestep_cm); o("potential_evapotranspiration", B.volPET_timestep_cm); o("actual_evapotranspiration", B.volAET_timestep_cm); o("surface_runoff", B.volrunoff_timestep_cm); o("giuh_runoff", B.volrunoff_giuh_timestep_cm); o("soil_storage", B.volend_timestep_cm); o("total_discharge", B.volQ_timestep_cm); o("infiltration", B.volin_timestep_cm); o("percolation", B.volrech_timestep_cm); o("groundwater_to_stream_recharge", B.volQ_gw_timestep_cm); o("mass_balance", B.local_mass_balance); }
  static const char *bad[] = {"", "precipitation_", "precip", "soil", "smc", "soil_num_wetting_front", "SMCMAX", "discharge", "van_genuchten", "soil_temperature"}; std::string nm = bad[r.i(0, 9)]; if (r.p(0.3)) { nm = vars[r.i(0, 24)].name; if (r.p(0.5)) nm += "x"; else nm = nm.substr(1); }
  bool isv = false; for (auto &v : vars) if (nm == v.name) isv = true;
  if (!isv) { REQ(x.m->GetVarGrid(nm) == -1 && x.m->GetVarType(nm) == "none" && x.m->GetVarItemsize(nm) == 0 && x.m->GetVarNbytes(nm) == 0, "unknown name '%s' has a type or size", nm.c_str()); bool threw = false; double d; try { x.m->GetValue(nm, &d); } catch (std::exception &) { threw = true; } REQ(threw, "unknown name '%s' has a value", nm.c_str()); }
  for (int g : {-1, 5, 6, -3}) REQ(x.m->GetGridSize(g) == -1 && x.m->GetGridRank(g) == -1, "grid %d exists", g);
}
static void c17run(Rng &r, Run &x) {
  auto all = [&] { std::vector<std::vector<char>> o; for (auto &v : vars) { char *p = (char *)x.m->GetValuePtr(v.name); o.push_back(std::vector<char>(p, p + gsize(x, v.grid) * (v.grid ? 8 : 4))); } return o; };
  for (int rep = 0; rep < 6; rep++) {
    int k = r.i(0, 24); auto &v = vars[k]; int sz = v.grid ? 8 : 4, n = gsize(x, v.grid), len = n * sz; auto before = all(); std::vector<char> buf(len + 32, 0x6b);
    if (!call([&] { x.m->GetValue(v.name, buf.data() + 16); })) fail("GetValue(%s) ended", v.name);
    REQ(!memcmp(buf.data() + 16, before[k].data(), len), "GetValue(%s) differs", v.name); for (int i = 0; i < 16; i++) REQ(buf[i] == 0x6b && buf[16 + len + i] == 0x6b, "GetValue(%s) wrote outside the destination", v.name);
    int cnt = r.i(0, n + 3); std::vector<int> ix(cnt + 1); for (int i = 0; i < cnt; i++) ix[i] = r.i(0, n - 1); std::vector<char> d2(cnt * sz + 32, 0x6b); if (!call([&] { x.m->GetValueAtIndices(v.name, d2.data() + 16, ix.data(), cnt); })) fail("GetValueAtIndices(%s) ended", v.name);
    for (int i = 0; i < cnt; i++) REQ(!memcmp(d2.data() + 16 + i * sz, before[k].data() + ix[i] * sz, sz), "GetValueAtIndices(%s) element %d of %d (index %d)", v.name, i, cnt, ix[i]); for (int i = 0; i < 16; i++) REQ(d2[i] == 0x6b && d2[16 + cnt * sz + i] == 0x6b, "GetValueAtIndices(%s) wrote outside the destination", v.name);
    auto unch = [&](const char *op) { auto now = all(); for (int j = 0; j < 25; j++) if (j != k) REQ(now[j] == before[j], "%s(%s) changed %s", op, v.name, vars[j].name); return now[k]; };
    REQ(unch("get") == before[k], "getting %s changed it", v.name);
    if (v.grid == 0) {   // the front count governs the size of other variables: set it to its own value, through a source of exactly that size
      std::vector<char> all0((char *)x.s, (char *)(x.s + 1)); int c1 = r.i(1, 3); int *one = new int[c1], *zi = new int[c1]; for (int i = 0; i < c1; i++) { memcpy(one + i, before[k].data(), 4); zi[i] = 0; } bool ok = call([&] { x.m->SetValueAtIndices(v.name, zi, c1, one); x.m->SetValue(v.name, one); }); delete[] one; delete[] zi; if (!ok) fail("setting %s ended", v.name);
      REQ(!memcmp(all0.data(), x.s, sizeof *x.s), "setting %s to its own value changed the model state", v.name); continue;
    }
    std::vector<char> src(len); for (int i = 0; i < n; i++) { double y = r.u(-5, 5); memcpy(src.data() + i * 8, &y, 8); } std::vector<char> keep = src; if (!call([&] { x.m->SetValue(v.name, src.data()); })) fail("SetValue(%s) ended", v.name); REQ(src == keep, "SetValue(%s) changed its source", v.name); REQ(unch("set") == src, "SetValue(%s) did not replace all values", v.name);
    std::vector<char> e = src, s2(cnt * 8); for (int i = 0; i < cnt; i++) { double y = r.u(-5, 5); memcpy(s2.data() + i * 8, &y, 8); memcpy(e.data() + ix[i] * 8, &y, 8); } if (!call([&] { x.m->SetValueAtIndices(v.name, ix.data(), cnt, s2.data()); })) fail("SetValueAtIndices(%s) ended", v.name); REQ(unch("set at indices") == e, "SetValueAtIndices(%s), %d indices", v.name, cnt);
    if (!call([&] { x.m->SetValue(v.name, before[k].data()); })) fail("SetValue ended"); REQ(unch("restore") == before[k], "restoring %s", v.name);
  }
}
void b06(Rng &r) { run(r, 6); } void b05(Rng &r) { run(r, 5); } void b15(Rng &r) { run(r, 15); } void b20(Rng &r) { run(r, 20); }
static void b01(Rng &r) { run(r, 1); } static void b02(Rng &r) { run(r, 2); } 
// one move of a random profile, with any infiltration and ET demand
static void move13(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 3, 0.15); if (r.p(0.1)) for (wetting_front *f = w.head; f; f = f->next) { f->psi_cm = 0; f->theta = w.soil(f->layer_num).theta_e; f->K_cm_per_h = w.soil(f->layer_num).Ksat_cm_per_h * w.ff[f->layer_num]; if (!f->to_bottom) return; }
  wetting_front *prev = listCopy(w.head); std::string before = show(snap(w.head)); double dt = r.u(0.05, 1), vol = r.p(0.3) ? 0 : r.lu(1e-6, 4), aet = r.p(0.4) ? 0 : r.lu(1e-7, 1), m0 = o_store(snap(w.head), w.cum); int fd = wetting_front_free_drainage(w.head);
  if (!call([&] { lgar_move_wetting_fronts(dt, &vol, fd, m0, w.L, &aet, w.cumv(), w.stv(), w.ffv(), &w.head, prev, w.spv()); })) return;
  for (auto &f : snap(w.head)) { REQ(f.layer >= 1 && f.layer <= w.L, "after a move: layer %d\n%s", f.layer, before.c_str()); auto &s = w.soil(f.layer);
    REQ(f.theta >= s.theta_r - 1e-9 && f.theta <= s.theta_e + 1e-9, "after a move: moisture %.12g outside [%.12g,%.12g]\n%s", f.theta, s.theta_r, s.theta_e, before.c_str()); REQ(f.psi >= 0, "after a move: head %.12g\n%s", f.psi, before.c_str()); }
}
static void b13(Rng &r) { if (r.p(0.9)) for (int k = 0; k < 20; k++) move13(r); else run(r, 13); } static void b16(Rng &r) { run(r, 16); } static void b17(Rng &r) { run(r, 17); } static void b18(Rng &r) { run(r, 18); } static void b19(Rng &r) { run(r, 19); } static void b21(Rng &r) { run(r, 21); }
CaseFn bmi_case_for(const std::string &p) {
  static const std::pair<const char *, CaseFn> t[] = {{"C01", b01}, {"C02", b02}, {"C13", b13}, {"C16", b16}, {"C17", b17}, {"C18", b18}, {"C19", b19}, {"C21", b21}};
  for (auto &x : t) if (p == x.first) return x.second; return nullptr;
}
