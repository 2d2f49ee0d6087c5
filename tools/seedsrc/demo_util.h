#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <fstream>
#include "bmi_lgar.hxx"
#define NEED(c, ...) do { if (!(c)) { fprintf(stderr, "DEMO: "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); _Exit(1); } } while (0)
static bool near_(double a, double b, double e = 1e-8) { return fabs(a - b) <= e * (1 + fabs(a) + fabs(b)); }
static soil_properties_ soil(double r, double e, double a, double n, double k) {
  soil_properties_ s; memset((void *)&s, 0, sizeof s); s.theta_r = r; s.theta_e = e; s.vg_alpha_per_cm = a; s.vg_n = n; s.vg_m = 1 - 1 / n; s.Ksat_cm_per_h = k;
  double m = s.vg_m, p = 1 + 2 / m; s.bc_lambda = 2 / (p - 3); s.bc_psib_cm = (p + 3) * (147.8 + 8.1 * p + 0.092 * p * p) / (2 * a * p * (p - 1) * (55.6 + 7.4 * p + p * p)); s.h_min_cm = s.bc_psib_cm * (2 + 3 / s.bc_lambda) / (1 + 3 / s.bc_lambda); return s;
}
static double th(double h, const soil_properties_ &s) { return h <= 0 ? s.theta_e : s.theta_r + (s.theta_e - s.theta_r) * pow(1 + pow(s.vg_alpha_per_cm * h, s.vg_n), -s.vg_m); }
static double se(double t, const soil_properties_ &s) { return (t - s.theta_r) / (s.theta_e - s.theta_r); }
static double hh(double S, const soil_properties_ &s) { return pow(pow(S, -1 / s.vg_m) - 1, 1 / s.vg_n) / s.vg_alpha_per_cm; }
static double kk(double S, double Ks, const soil_properties_ &s) { double t = 1 - pow(1 - pow(S, 1 / s.vg_m), s.vg_m); return Ks * sqrt(S) * t * t; }
static wetting_front *fr(double d, double t, int layer, int num, bool bot, double psi, double K = 0.1, double v = 0) {
  wetting_front *f = (wetting_front *)calloc(1, sizeof(wetting_front)); f->depth_cm = d; f->theta = t; f->layer_num = layer; f->front_num = num; f->to_bottom = bot; f->psi_cm = psi; f->K_cm_per_h = K; f->dzdt_cm_per_h = v; return f;
}
static wetting_front *chain(std::vector<wetting_front *> v) { for (size_t i = 0; i + 1 < v.size(); i++) v[i]->next = v[i + 1]; return v[0]; }
static double store(wetting_front *h, const double *cum) { double t = 0; for (; h; h = h->next) t += (h->depth_cm - cum[h->layer_num - 1]) * (h->theta - (h->next && h->next->layer_num == h->layer_num ? h->next->theta : 0)); return t; }
// writes a model configuration; extra lines override or add options
static std::string config(const std::string &dir, const std::string &extra = "", const std::string &thick = "44,131,25", const std::string &types = "1,2,3", double psi = 2000) {
  std::ofstream s(dir + "/soil.dat"); s << "\"Texture theta_r theta_e alpha n Ks\"\n\"Loam\" 0.06 0.40 0.01 1.47 0.504\n\"Sandy\" 0.05 0.39 0.03 1.75 4.32\n\"Clay\" 0.08 0.44 0.02 1.42 0.3348\n\"Silt\" 0.07 0.44 0.01 1.66 0.756\n"; s.close();
  std::ofstream c(dir + "/cfg.txt"); c << "verbosity=none\nsoil_params_file=" << dir << "/soil.dat\nlayer_thickness=" << thick << "[cm]\ninitial_psi=" << psi << "[cm]\ntimestep=300[sec]\nendtime=1000[hr]\nforcing_resolution=3600[sec]\nlayer_soil_type=" << types << "\nmax_valid_soil_types=4\nwilting_point_psi=15495.0[cm]\nfield_capacity_psi=340.9[cm]\ngiuh_ordinates=0.06,0.51,0.28,0.12,0.03\n" << extra << "\n";
  return dir + "/cfg.txt";
}
static void forcing(BmiLGAR &m, double p, double e) { m.SetValue("precipitation_rate", &p); m.SetValue("potential_evapotranspiration_rate", &e); }
