#include "common.hpp"

Prof snap(wetting_front *h) { Prof p; for (wetting_front *c = h; c; c = c->next) { p.push_back({c->depth_cm, c->theta, c->psi_cm, c->K_cm_per_h, c->dzdt_cm_per_h, c->layer_num, c->front_num, c->to_bottom, c}); if (p.size() > 5000) fail("front list does not end"); } return p; }
std::string show(const Prof &p) { std::string s; char b[256]; for (auto &f : p) { snprintf(b, sizeof b, "[#%d L%d d=%.10g th=%.10g psi=%.6g K=%.4g v=%.4g %d] ", f.num, f.layer, f.depth, f.theta, f.psi, f.K, f.dzdt, f.bot); s += b; } return s; }
void check_numbered(wetting_front *h, const char *where) { int n = 1; for (wetting_front *c = h; c; c = c->next, n++) REQ(c->front_num == n, "%s: front at position %d is numbered %d", where, n, c->front_num); }

static void fill_bc(soil_properties_ &s) {
  double m = 1 - 1 / s.vg_n, p = 1 + 2 / m; s.vg_m = m; s.bc_lambda = 2 / (p - 3);
  s.bc_psib_cm = (p + 3) * (147.8 + 8.1 * p + 0.092 * p * p) / (2 * s.vg_alpha_per_cm * p * (p - 1) * (55.6 + 7.4 * p + p * p));
  s.h_min_cm = s.bc_psib_cm * (2 + 3 / s.bc_lambda) / (1 + 3 / s.bc_lambda);
}
void rand_soil(Rng &r, soil_properties_ &s) {
  memset(&s, 0, sizeof s); strcpy(s.soil_name, "x");
  s.theta_r = r.u(0.02, 0.12); s.theta_e = r.u(0.3, 0.55); s.vg_alpha_per_cm = r.lu(0.002, 0.15); s.vg_n = r.u(1.1, 2.8); s.Ksat_cm_per_h = r.lu(0.01, 30);
  fill_bc(s); s.theta_wp = o_theta(15495, s);
}
World rand_world(Rng &r, int maxL) {
  World w; w.L = r.i(1, maxL); w.cum.assign(w.L + 1, 0); w.ff.assign(w.L + 1, 1); w.st.assign(w.L + 1, 0); int ns = r.i(w.L, 8); w.sp.resize(ns + 1);
  for (auto &s : w.sp) rand_soil(r, s);
  std::vector<int> perm; for (int i = 1; i <= ns; i++) perm.push_back(i);
  for (int i = ns - 1; i > 0; i--) std::swap(perm[i], perm[r.i(0, i)]);
  for (int l = 1; l <= w.L; l++) { w.cum[l] = w.cum[l - 1] + r.u(8, 60); w.st[l] = perm[l - 1]; if (r.p(0.3)) w.ff[l] = r.u(0.05, 1); }
  return w;
}
wetting_front *mk(double d, double th, int layer, int num, bool bot, double psi, double K, double dzdt) {
  wetting_front *f = new wetting_front; memset(f, 0, sizeof *f);
  f->depth_cm = d; f->theta = th; f->layer_num = layer; f->front_num = num; f->to_bottom = bot; f->psi_cm = psi; f->K_cm_per_h = K; f->dzdt_cm_per_h = dzdt; f->next = nullptr; return f;
}
void rand_profile(Rng &r, World &w, int maxmov, double psat) {
  std::vector<wetting_front *> rev;
  double psi = r.lu(20, 20000);
  for (int l = w.L; l >= 1; l--) {
    const soil_properties_ &s = w.soil(l);
    auto add = [&](double d, double ps, bool bot) { double th = o_theta(ps, s); rev.push_back(mk(d, th, l, 0, bot, ps, o_K(o_setheta(th, s), s.Ksat_cm_per_h * w.ff[l], s.vg_m), bot ? 0 : r.u(0.01, 3))); };
    add(w.cum[l], psi, true);
    int m = r.p(0.35) ? 0 : r.i(0, maxmov); double d = w.cum[l];
    for (int k = 0; k < m; k++) {
      double ps = psi * r.u(0.03, 0.9); if (l == 1 && k == m - 1 && r.p(psat)) ps = 0;
      if (o_theta(ps, s) - o_theta(psi, s) < 1e-5) break;
      d = w.cum[l - 1] + (d - w.cum[l - 1]) * r.u(0.2, 0.95); psi = ps; add(d, psi, false);
    }
  }
  wetting_front *h = nullptr; for (auto f : rev) { f->next = h; h = f; }
  int n = 1; for (auto c = h; c; c = c->next) c->front_num = n++;
  w.head = h;
}

double o_se(double h, const soil_properties_ &s) { return h <= 0 ? 1.0 : pow(1.0 + pow(s.vg_alpha_per_cm * h, s.vg_n), -s.vg_m); }
double o_theta(double h, const soil_properties_ &s) { return s.theta_r + (s.theta_e - s.theta_r) * o_se(h, s); }
double o_K(double Se, double Ks, double m) { double t = 1 - pow(1 - pow(Se, 1 / m), m); return Ks * sqrt(Se) * t * t; }
double o_h(double Se, const soil_properties_ &s) { return pow(pow(Se, -1 / s.vg_m) - 1, 1 / s.vg_n) / s.vg_alpha_per_cm; }
double o_setheta(double th, const soil_properties_ &s) { return (th - s.theta_r) / (s.theta_e - s.theta_r); }
double o_store(const Prof &p, const std::vector<double> &cum) {
  double t = 0; for (size_t i = 0; i < p.size(); i++) { double below = i + 1 < p.size() && p[i + 1].layer == p[i].layer ? p[i + 1].theta : 0; t += (p[i].depth - cum[p[i].layer - 1]) * (p[i].theta - below); } return t;
}
static void renum(Prof &p) { for (size_t i = 0; i < p.size(); i++) p[i].num = i + 1; }
static void rehyd(Front &f, double th, const soil_properties_ &s, double ff, bool K) { double se = o_setheta(th, s); f.psi = o_h(se, s); if (K) f.K = o_K(se, s.Ksat_cm_per_h * ff, s.vg_m); }
void o_merge(Prof &p, const World &w) {
  for (size_t i = 0; i + 1 < p.size(); i++) {
    Front &a = p[i], &b = p[i + 1];
    if (a.depth > b.depth && a.layer == b.layer && !b.bot) {
      double base = w.cum[a.layer - 1]; const Front &c = p[i + 2];
      double mass = (a.depth - base) * (a.theta - b.theta) + (b.depth - base) * (b.theta - c.theta);
      a.depth = base + mass / (a.theta - c.theta); rehyd(a, a.theta, w.soil(a.layer), w.ff[a.layer], true); p.erase(p.begin() + i + 1);
    }
  }
  renum(p);
}
double o_cross_gap = 1;
void o_cross(Prof &p, const World &w) {
  o_cross_gap = 1;
  for (size_t i = 0; i + 1 < p.size(); i++) {
    Front &a = p[i], &b = p[i + 1]; int l = a.layer;
    if (l != w.L && a.depth > w.cum[l] && b.depth == w.cum[l]) {
      const soil_properties_ &s = w.soil(l), &t = w.soil(l + 1); rehyd(a, a.theta, s, w.ff[l], true);
      double thn = o_theta(a.psi, t), water = (a.depth - b.depth) * (fmin(s.theta_e, a.theta) - b.theta), z = water / (thn - p[i + 2].theta); o_cross_gap = fmin(o_cross_gap, fabs(thn - p[i + 2].theta));
      if (std::isinf(z)) z = w.cum[l + 1] / 1e3;
      a.depth = w.cum[l]; b.theta = thn; b.psi = a.psi; b.depth = w.cum[l] + z; b.layer = l + 1; b.dzdt = a.dzdt; a.dzdt = 0; a.bot = true; b.bot = false;
    }
  }
}
double o_domain(Prof &p, const World &w) {
  size_t n = p.size(); if (n < 2) return 0; Front &a = p[n - 2], &b = p[n - 1];
  if (a.depth < w.cum[w.L]) return 0;
  double before = o_store(p, w.cum); rehyd(b, a.theta, w.soil(a.layer), w.ff[a.layer], true); b.theta = a.theta; p.erase(p.end() - 2); renum(p); return before - o_store(p, w.cum);
}
double o_fixdry(Prof &p, const World &w) {
  double ch = 0; size_t i = 0;
  while (i + 1 < p.size()) {
    if (p[i].theta <= p[i + 1].theta && p[i].layer == p[i + 1].layer) {
      double before = o_store(p, w.cum); int l = p[i].layer; p.erase(p.begin() + i);
      if (l > 1) { rehyd(p[i], p[i].theta, w.soil(p[i].layer), 1, false); for (size_t k = 0; k < p.size() && p[k].layer < l; k++) { p[k].psi = p[i].psi; p[k].theta = o_theta(p[i].psi, w.soil(p[k].layer)); } }
      ch += fabs(o_store(p, w.cum) - before);
    }
    i++;
  }
  renum(p); return ch;
}
int o_freedrain(const Prof &p) { size_t i = 0; while (i + 1 < p.size() && p[i].layer != p[i + 1].layer) i++; return i + 1; }
void cmp_prof(const Prof &g, const Prof &e, const char *where, bool dz) {
  REQ(g.size() == e.size(), "%s: %zu fronts, expected %zu\n got %s\n exp %s", where, g.size(), e.size(), show(g).c_str(), show(e).c_str());
  for (size_t i = 0; i < g.size(); i++) {
    bool ok = g[i].num == e[i].num && g[i].layer == e[i].layer && g[i].bot == e[i].bot && close_(g[i].depth, e[i].depth, 1e-8) && close_(g[i].theta, e[i].theta, 1e-8)
      && close_(g[i].psi, e[i].psi, 1e-5, 1e-5) && close_(g[i].K, e[i].K, 1e-6, 1e-9) && (!dz || close_(g[i].dzdt, e[i].dzdt, 1e-8));
    REQ(ok, "%s: front %zu differs\n got %s\n exp %s", where, i + 1, show(g).c_str(), show(e).c_str());
  }
}
