#include "common.hpp"

static void c03(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 3, 0.3);
  if (r.p(0.15)) { for (auto c = w.head; c; c = c->next) { c->theta = w.soil(c->layer_num).theta_e; c->psi_cm = 0; } }      // saturated column
  if (r.p(0.2)) { double ps = r.lu(1, 5000); while (w.head->next && w.head->next->layer_num == w.head->layer_num) w.head = w.head->next; auto c = w.head; int n = 1; for (; c; c = c->next) { while (c->next && c->next->next && c->next->layer_num == c->next->next->layer_num) c->next = c->next->next; c->front_num = n++; c->theta = o_theta(ps, w.soil(c->layer_num)); c->psi_cm = ps; c->depth_cm = w.cum[c->layer_num]; c->to_bottom = true; } }
  Prof p0 = snap(w.head); double st0 = o_store(p0, w.cum), cap = 0;
  for (int l = 1; l <= w.L; l++) cap += w.soil(l).theta_e * (w.cum[l] - w.cum[l - 1]);
  double dt = r.lu(0.01, 1), pdmax = r.p(0.4) ? 0 : r.lu(0.01, 5), precip = r.p(0.2) ? 0 : r.lu(0.01, 20), pond = precip * dt + (r.p(0.5) ? 0 : r.u(0, pdmax)); bool closed = r.p(0.5);
  if (pond <= 0) pond = r.lu(1e-3, 2);
  double P = pond, volin = 0, run = -1, aet = r.u(0, 0.1); int fd = o_freedrain(p0);
  bool exact = r.p(0.1) && pdmax > 0;
  auto go = [&]() { return call([&] { run = lgar_insert_water(closed, 120, dt, aet, &pond, &volin, precip, fd, w.L, pdmax, w.stv(), w.cumv(), w.ffv(), w.head, w.spv()); }); };
  if (exact) {   // probe the capacity, then offer water that leaves exactly the maximum
    double pd2 = 1e6, vi = 0, rr = 0; double pr2 = 1e6 / dt; if (!call([&] { rr = lgar_insert_water(closed, 120, dt, aet, &pd2, &vi, pr2, fd, w.L, 0.0, w.stv(), w.cumv(), w.ffv(), w.head, w.spv()); })) return;
    if (vi > 0 && std::isfinite(vi)) { P = pond = vi + pdmax; precip = P / dt; }
  }
  if (!go()) return;
  REQ(close_(P, volin + pond + run, 1e-11, 1e-11), "offered %.17g != in %.17g + ponded %.17g + runoff %.17g (max %.6g)", P, volin, pond, run, pdmax);
  REQ(volin >= -1e-10 && pond >= -1e-12 && run >= -1e-12, "negative part: in %.6g ponded %.6g runoff %.6g of %.6g", volin, pond, run, P);
  REQ(volin <= P * (1 + 1e-12) + 1e-12, "infiltration %.17g exceeds water offered %.17g", volin, P);
  REQ(volin <= fmax(0, cap - st0) + 1e-9, "infiltration %.10g exceeds free storage %.10g", volin, cap - st0);
  REQ(pond <= pdmax + 1e-12, "ponding %.17g exceeds the maximum %.17g", pond, pdmax);
  REQ(!(run > 1e-12) || close_(pond, pdmax, 1e-12, 1e-12), "runoff %.6g although ponding %.6g < max %.6g", run, pond, pdmax);
  cmp_prof(snap(w.head), p0, "insert_water leaves the profile alone");
}

static void c04(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 3, 0);
  Prof p0 = snap(w.head); const soil_properties_ &s = w.soil(1); double th1 = p0[0].theta, dth = s.theta_e - th1; if (dth < 1e-4) return;
  double top = p0[0].depth, dd = r.p(0.85) ? top * r.u(0.001, 0.999) : w.cum[1] * r.u(0.001, 1.0); if (r.p(0.05)) dd = w.cum[1];
  double P = r.p(0.5) ? dd * dth * r.u(0.01, 0.999) : dd * dth * r.u(1.0, 3.0), pond = P, volin = r.u(0, 3);
  if (!call([&] { lgar_create_surficial_front(w.L, &pond, &volin, dd, th1, w.stv(), w.cumv(), w.ffv(), &w.head, w.spv()); })) fail("aborted (%s)", last_end.c_str());
  double thn = fmin(th1 + P / dd, s.theta_e), in = fmin(P, dd * dth);
  REQ(close_(volin, in, 1e-10, 1e-12) && close_(pond, P - in, 1e-10, 1e-11), "water %.10g dry depth capacity %.10g: in %.10g left %.10g", P, dd * dth, volin, pond);
  REQ(volin >= 0 && pond >= -1e-13, "negative: in %g left %g", volin, pond);
  Prof e = p0; for (auto &f : e) f.num++; double se = o_setheta(thn, s);
  Front nf{dd, thn, o_h(se, s), o_K(se, s.Ksat_cm_per_h * w.ff[1], s.vg_m), 0, 1, 1, false, nullptr}; e.insert(e.begin(), nf);
  bool deep = e.size() > 1 && e[0].depth > e[1].depth; double s0 = o_store(p0, w.cum);
  if (deep) { o_merge(e, w); o_cross(e, w); if (o_cross_gap < 1e-6) return; }
  Prof g = snap(w.head);
  if (deep) { for (size_t i = 0; i < g.size() && i < e.size(); i++) { g[i].K = e[i].K; } }
  cmp_prof(g, e, "create front"); check_numbered(w.head, "create front");
  if (!deep) REQ(close_(o_store(g, w.cum), s0 + volin, 1e-9, 1e-9), "storage %.12g -> %.12g, water in %.12g", s0, o_store(g, w.cum), volin);
}

void b05(Rng &r);
static void c05(Rng &r) {
  if (r.p(0.02)) return b05(r);
  World w = rand_world(r); rand_profile(r, w); const soil_properties_ &s = w.soil(w.head->layer_num);
  double pet = r.p(0.1) ? 0 : r.lu(1e-4, 2), dt = r.lu(0.01, 1), wp = r.u(8000, 20000), fc = r.u(50, 800);
  auto f = [&](double psi) { w.head->psi_cm = psi; double v = -1; if (!call([&] { v = calc_aet(pet, dt, wp, fc, w.stv(), 0.85, 1.0, w.head, w.spv()); })) fail("aborted"); return v; };
  double th50 = 0.5 * (o_theta(fc, s) + o_theta(wp, s)), p50 = o_h(o_setheta(th50, s), s);
  double ps = r.p(0.1) ? 0 : r.lu(0.1, 1e6), ps2 = ps * r.u(1, 4), a = f(ps), b = f(ps2), c = f(p50);
  REQ(close_(a, pet * dt / (1 + pow(ps / p50, 3)), 1e-6, 1e-15), "AET %.12g expected %.12g (psi %g psi50 %g pet*dt %g)", a, pet * dt / (1 + pow(ps / p50, 3)), ps, p50, pet * dt);
  REQ(a >= 0 && a <= pet * dt, "AET %.17g outside [0,%.17g]", a, pet * dt);
  REQ(b <= a + 1e-15, "AET grows with dryness"); REQ(close_(c, pet * dt / 2, 1e-6, 1e-15), "AET at psi50 %.12g, half PET %.12g", c, pet * dt / 2);
  double neg = -1; call([&] { neg = calc_aet(-pet, dt, wp, fc, w.stv(), 0.85, 1.0, w.head, w.spv()); });
}

void b06(Rng &r);
static void c06(Rng &r) {
  if (r.p(0.02)) return b06(r);
  int n = r.p(0.2) ? 1 : r.i(1, 40); double *o = new double[n], *q = new double[n + 1]; std::vector<double> oc(n), qm(n + 1, 0.0);
  double so = 0; for (int i = 0; i < n; i++) { o[i] = oc[i] = r.p(0.1) ? 0 : r.u(); so += o[i]; } for (int i = 0; i <= n; i++) q[i] = 0;
  double in = 0, out = 0; int T = r.i(1, 60);
  for (int t = 0; t < T; t++) {
    double R = r.p(0.4) ? 0 : r.lu(1e-5, 10), rel = -1;
    if (!call([&] { rel = giuh_convolution_integral(R, n, o, q); })) fail("aborted");
    double er = qm[0] + oc[0] * R; for (int i = 1; i < n; i++) qm[i - 1] = qm[i] + oc[i] * R; qm[n - 1] = 0;
    for (int i = 0; i < n; i++) qm[i] = n == 1 ? 0 : qm[i];
    REQ(close_(rel, er, 1e-10, 1e-12), "step %d: released %.12g expected %.12g (n=%d)", t, rel, er, n);
    in += R * so; out += rel; double left = 0; for (int i = 0; i < n; i++) left += q[i];
    REQ(close_(in, out + left, 1e-9, 1e-10), "step %d: routed-in %.12g out+queued %.12g", t, in, out + left);
    for (int i = 0; i < n; i++) { REQ(o[i] == oc[i], "ordinate changed"); REQ(close_(q[i], qm[i], 1e-9, 1e-12), "queue[%d] %.12g expected %.12g", i, q[i], qm[i]); }
  }
  delete[] o; delete[] q;
}

static void c07(Rng &r) {
  soil_properties_ s; rand_soil(r, s); double h = r.p(0.1) ? 0 : r.lu(1e-2, 1e6), h2 = h * r.u(1, 3) + r.u(0, 5);
  double a = -1, b = -1, z = -1, se, k, k0, k1, hh, st;
  if (!call([&] { auto T = [&](double x) { return calc_theta_from_h(x, s.vg_alpha_per_cm, s.vg_m, s.vg_n, s.theta_e, s.theta_r); }; a = T(h); b = T(h2); z = T(0); se = calc_Se_from_h(h, s.vg_alpha_per_cm, s.vg_m, s.vg_n);
        k = calc_K_from_Se(se, s.Ksat_cm_per_h, s.vg_m); k0 = calc_K_from_Se(0, s.Ksat_cm_per_h, s.vg_m); k1 = calc_K_from_Se(1, s.Ksat_cm_per_h, s.vg_m); hh = calc_h_from_Se(se, s.vg_alpha_per_cm, s.vg_m, s.vg_n); st = calc_Se_from_theta(a, s.theta_e, s.theta_r); })) fail("aborted");
  REQ(close_(a, o_theta(h, s), 1e-10, 1e-12), "theta(%g)=%.12g expected %.12g", h, a, o_theta(h, s)); REQ(close_(z, s.theta_e, 1e-14, 1e-14), "theta(0)=%.17g", z);
  REQ(a >= s.theta_r - 1e-15 && a <= s.theta_e + 1e-15, "theta out of range"); REQ(b <= a + 1e-15, "theta not monotone");
  REQ(close_(se, o_se(h, s), 1e-10, 1e-14), "Se(%g)=%.12g expected %.12g", h, se, o_se(h, s));
  REQ(close_(k, o_K(se, s.Ksat_cm_per_h, s.vg_m), 1e-8, 1e-14), "K=%.12g expected %.12g", k, o_K(se, s.Ksat_cm_per_h, s.vg_m));
  REQ(fabs(k0) < 1e-14 && close_(k1, s.Ksat_cm_per_h, 1e-12), "K(0)=%g K(1)=%g", k0, k1); REQ(k >= 0 && k <= s.Ksat_cm_per_h * (1 + 1e-12), "K out of range");
  REQ(close_(st, o_setheta(a, s), 1e-12, 1e-14), "Se from theta"); if (se < 1 - 1e-6) REQ(close_(hh, h, 1e-4, 1e-6), "h(Se(h))=%.12g, h=%.12g", hh, h);
}

static void c08(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 4);
  for (auto c = w.head; c; c = c->next) if (!c->to_bottom && r.p(0.5)) { double lo = w.cum[c->layer_num - 1], hi = w.cum[c->layer_num]; if (c->next && c->next->layer_num == c->layer_num && r.p(0.5)) lo = fmin(c->next->depth_cm, hi - 1e-3); c->depth_cm = r.u(lo + 1e-6, r.p(0.2) ? hi * 1.05 : hi); }
  Prof p0 = snap(w.head), e = p0; o_merge(e, w); double s0 = o_store(p0, w.cum); bool bad = false;
  for (auto &f : e) if (!(f.depth > 0)) bad = true;
  if (!call([&] { lgar_merge_wetting_fronts(w.stv(), w.ffv(), &w.head, w.spv()); })) { if (bad) return; fail("aborted (%s)", last_end.c_str()); }
  Prof g = snap(w.head); check_numbered(w.head, "merge"); cmp_prof(g, e, "merge");
  REQ(close_(o_store(g, w.cum), s0, 1e-9, 1e-9), "storage %.12g -> %.12g", s0, o_store(g, w.cum));
  for (auto &f : g) { bool m = false; for (auto &q : p0) if (q.theta == f.theta && q.layer == f.layer) m = true; REQ(m, "merge changed a moisture"); }
}

static void c09(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 3, 0.02);
  for (auto c = w.head; c; c = c->next) if (!c->to_bottom && c->next && c->next->to_bottom && c->layer_num < w.L && r.p(0.7)) c->depth_cm = w.cum[c->layer_num] + r.u(0.01, 5);
  Prof p0 = snap(w.head), e = p0; o_cross(e, w); double s0 = o_store(p0, w.cum); bool coincide = false;
  for (size_t i = 0; i + 2 < p0.size(); i++) { if (p0[i].layer != w.L && p0[i].depth > w.cum[p0[i].layer] && p0[i + 1].depth == w.cum[p0[i].layer]) { if (e[i + 1].theta - p0[i + 2].theta < 1e-7) coincide = true; } }
  if (!call([&] { lgar_wetting_fronts_cross_layer_boundary(w.L, w.cumv(), w.stv(), w.ffv(), &w.head, w.spv()); })) fail("aborted (%s)", last_end.c_str());
  if (coincide || o_cross_gap < 1e-6) return;
  Prof g = snap(w.head); cmp_prof(g, e, "cross layer"); check_numbered(w.head, "cross layer");
  REQ(close_(o_store(g, w.cum), s0, 1e-7, 1e-7), "storage %.12g -> %.12g\n %s\n %s", s0, o_store(g, w.cum), show(p0).c_str(), show(g).c_str());
}

static void c10(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 3, 0.02); Prof p0 = snap(w.head); size_t n = p0.size();
  if (n >= 2 && p0[n - 2].layer == w.L && r.p(0.7)) { wetting_front *c = w.head; while (c->next->next) c = c->next; c->depth_cm = r.p(0.1) ? w.cum[w.L] : w.cum[w.L] + r.u(0, 4); if (r.p(0.25)) { const soil_properties_ &s = w.soil(w.L); c->psi_cm = c->next->psi_cm * r.u(1, 4); c->theta = o_theta(c->psi_cm, s); c->K_cm_per_h = o_K(o_setheta(c->theta, s), s.Ksat_cm_per_h * w.ff[w.L], s.vg_m); } p0 = snap(w.head); }
  Prof e = p0; double ef = o_domain(e, w), fl = -1, s0 = o_store(p0, w.cum);
  if (!call([&] { fl = lgar_wetting_front_cross_domain_boundary(w.cum[w.L], w.stv(), w.ffv(), &w.head, w.spv()); })) fail("aborted (%s)", last_end.c_str());
  Prof g = snap(w.head); cmp_prof(g, e, "cross domain"); check_numbered(w.head, "cross domain");
  REQ(close_(fl, ef, 1e-9, 1e-9), "flux %.12g, expected %.12g", fl, ef); REQ(close_(s0 - o_store(g, w.cum), fl, 1e-9, 1e-8), "flux %.12g, storage lost %.12g", fl, s0 - o_store(g, w.cum));
}

static bool feq(const Front &a, const Front &b, bool num) { return a.depth == b.depth && a.theta == b.theta && a.psi == b.psi && a.K == b.K && a.dzdt == b.dzdt && a.layer == b.layer && a.bot == b.bot && (!num || a.num == b.num); }
static void c11(Rng &r) {
  wetting_front *h = nullptr; Prof m; int ops = r.i(1, 25);
  auto chk = [&](const char *op) { Prof g = snap(h); REQ(g.size() == m.size(), "%s: length %zu expected %zu", op, g.size(), m.size()); for (size_t i = 0; i < g.size(); i++) REQ(feq(g[i], m[i], false) && g[i].num == (int)i + 1, "%s: position %zu\n got %s\n exp %s", op, i + 1, show(g).c_str(), show(m).c_str()); };
  for (int k = 0; k < ops; k++) {
    int op = r.i(0, 5), n = m.size(); double d = r.u(1, 100), t = r.u(0.1, 0.5); int l = r.i(1, 4); bool b = r.p(0.5);
    if (op == 0) { if (!call([&] { listInsertFirst(d, t, 1, l, b, &h); })) fail("listInsertFirst ended"); m.insert(m.begin(), Front{d, t, 0, 0, 0, l, 1, b, nullptr}); h->psi_cm = m[0].psi = r.u(); h->K_cm_per_h = m[0].K = r.u(); h->dzdt_cm_per_h = m[0].dzdt = r.u(); chk("listInsertFirst"); }
    else if (op == 1) {
      int f = r.i(1, n + 1); wetting_front *x = nullptr; if (!call([&] { x = listInsertFront(d, t, f, l, b, &h); })) fail("listInsertFront ended");
      m.insert(m.begin() + (f - 1), Front{d, t, 0, 0, 0, l, f, b, nullptr}); wetting_front *c = h; for (int i = 1; i < f && c; i++) c = c->next; REQ(c == x, "listInsertFront returned another front than number %d", f);
      c->psi_cm = m[f - 1].psi = r.u(); c->K_cm_per_h = m[f - 1].K = r.u(); c->dzdt_cm_per_h = m[f - 1].dzdt = r.u(); chk("listInsertFront");
    } else if (op == 2 && n > 0) {
      int f = r.i(1, n); wetting_front *x = nullptr; if (!call([&] { x = listDeleteFront(f, &h); })) fail("listDeleteFront ended"); m.erase(m.begin() + (f - 1));
      chk("listDeleteFront"); wetting_front *c = h; for (int i = 1; i < f && c; i++) c = c->next; if (f <= (int)m.size()) REQ(x == c, "listDeleteFront returned another front than the one that took place %d", f);
    } else if (op == 3 && n > 0) {
      int f = r.i(1, n); wetting_front *x = nullptr, *y = nullptr; if (!call([&] { x = listFindFront(f, h, NULL); y = listFindFront(r.i(0, 1) ? n + r.i(1, 3) : -r.i(0, 3), h, NULL); })) fail("listFindFront ended"); REQ(x && x->front_num == f && feq(snap(x)[0], m[f - 1], false), "listFindFront(%d)", f); REQ(y == nullptr, "listFindFront of a number no front has returned a front");
    } else if (op == 4) {
      wetting_front *c = nullptr; if (!call([&] { c = listCopy(h); })) fail("listCopy ended"); Prof a = snap(h), b2 = snap(c); REQ(a.size() == b2.size(), "copy length");
      for (size_t i = 0; i < a.size(); i++) REQ(feq(a[i], b2[i], true), "copy differs at %zu", i + 1); for (auto &x : a) for (auto &y : b2) REQ(x.p != y.p, "copy shares a front"); 
      if (!call([&] { listDelete(c); })) fail("listDelete ended"); chk("after deleting a copy");
    } else { int len = -1; if (!call([&] { len = listLength(h); })) fail("listLength ended"); REQ(len == n, "listLength %d expected %d", len, n); }
  }
  call([&] { listDelete(h); });
}

static void c12(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 4); for (auto c = w.head; c; c = c->next) if (r.p(0.3)) { c->depth_cm += r.u(-3, 3); c->theta = r.u(0.05, 0.5); }
  Prof p0 = snap(w.head); double v = -1, z = -1; if (!call([&] { v = lgar_calc_mass_bal(w.cumv(), w.head); z = lgar_calc_mass_bal(w.cumv(), NULL); })) fail("aborted");
  REQ(close_(v, o_store(p0, w.cum), 1e-10, 1e-10), "storage %.14g expected %.14g", v, o_store(p0, w.cum)); REQ(z == 0, "empty profile holds %g", z);
  Prof g = snap(w.head); for (size_t i = 0; i < g.size(); i++) REQ(feq(g[i], p0[i], true), "profile changed");
}

static void c14(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 3); bool closed = r.p(0.5); double hp = r.p(0.5) ? 0 : r.lu(1e-3, 5); Prof p0 = snap(w.head); int nint = r.i(20, 150);
  if (r.p(0.2)) { for (auto c = w.head; c; c = c->next) if (!c->to_bottom && r.p(0.3)) c->depth_cm = w.cum[c->layer_num - 1] + 1e-4; p0 = snap(w.head); }
  if (!call([&] { lgar_dzdt_calc(closed, nint, hp, w.stv(), w.cumv(), w.ffv(), w.head, w.spv()); })) fail("aborted (%s)", last_end.c_str());
  Prof g = snap(w.head); REQ(g.size() == p0.size(), "list changed");
  for (size_t i = 0; i < g.size(); i++) {
    Front x = g[i]; x.dzdt = p0[i].dzdt; REQ(feq(x, p0[i], true), "more than velocities changed at %zu", i + 1); double v = g[i].dzdt;
    if (i + 1 == g.size()) REQ(v == p0[i].dzdt, "velocity of the deepest front changed");
    else if (p0[i].bot) REQ(v == 0, "resting front %zu has velocity %g", i + 1, v);
    else {
      REQ(v > 0 && v <= 1e4, "front %zu velocity %g", i + 1, v);
      if (p0[i].layer == 1) { const soil_properties_ &s = w.soil(1); double Ks = s.Ksat_cm_per_h * w.ff[1], G = 0; call([&] { G = calc_Geff(closed, p0[i + 1].theta, p0[i].theta, s.theta_e, s.theta_r, s.vg_alpha_per_cm, s.vg_n, s.vg_m, s.h_min_cm, Ks, nint, s.bc_lambda, s.bc_psib_cm); });
        double e = fmin(1e4, (Ks * (G + hp) / p0[i].depth + p0[i].K) / (p0[i].theta - p0[i + 1].theta)); REQ(close_(v, e, 1e-9, 1e-12), "front %zu velocity %.12g expected %.12g", i + 1, v, e); }
    }
  }
}

void b15(Rng &r);
static void c15(Rng &r) {
  if (r.p(0.02)) return b15(r);
  lgar_bmi_parameters P; memset((void *)&P, 0, sizeof P); int L = r.i(1, 4), n = r.i(L, 20); P.num_layers = L; P.num_cells_temp = n; P.cum_layer_thickness_cm = new double[L + 1]; P.frozen_factor = new double[L + 1]; P.soil_temperature = new double[n]; P.soil_temperature_z = new double[n];
  P.cum_layer_thickness_cm[0] = 0; for (int l = 1; l <= L; l++) P.cum_layer_thickness_cm[l] = P.cum_layer_thickness_cm[l - 1] + r.u(5, 50);
  double tot = P.cum_layer_thickness_cm[L], z = 0; for (int i = 0; i < n; i++) { z += tot / n * r.u(0.3, 1.3); P.soil_temperature_z[i] = z; P.soil_temperature[i] = r.p(0.3) ? 273.15 + r.u(-0.3, 0.02) : 273.15 + r.u(-5, 8); }
  for (int l = 0; l <= L; l++) P.frozen_factor[l] = 7.5 + l;
  bool ok = call([&] { frozen_factor_hydraulic_conductivity(P); });
  int c = 0; for (int l = 1; l <= L; l++) { double s = 0; int k = 0; while (c < n && P.soil_temperature_z[c] <= P.cum_layer_thickness_cm[l]) { s += P.soil_temperature[c]; c++; k++; } if (k == 0) { REQ(!ok, "layer %d has no temperature cell but the call returned", l); goto done; }
    if (ok) { double e = fmin(1.0, fmax(0.05, exp(-10 * (273.15 - s / k)))); REQ(close_(P.frozen_factor[l], e, 1e-9), "layer %d factor %.12g expected %.12g", l, P.frozen_factor[l], e); REQ(P.frozen_factor[l] >= 0.05 && P.frozen_factor[l] <= 1, "factor range"); } }
  REQ(ok, "aborted (%s)", last_end.c_str()); REQ(P.frozen_factor[0] == 7.5, "entry 0 written");
done:
  delete[] P.cum_layer_thickness_cm; delete[] P.frozen_factor; delete[] P.soil_temperature; delete[] P.soil_temperature_z;
}

void b20(Rng &r);
static void c20(Rng &r) {
  if (r.p(0.02)) return b20(r);
  World w = rand_world(r); w.head = nullptr; double psi = r.lu(1, 20000); if (!call([&] { InitializeWettingFronts(w.L, psi, w.stv(), w.cumv(), w.ffv(), &w.head, w.spv()); })) fail("aborted (%s)", last_end.c_str());
  Prof g = snap(w.head); REQ((int)g.size() == w.L, "%zu fronts for %d layers", g.size(), w.L); check_numbered(w.head, "init");
  for (int i = 0; i < w.L; i++) { const soil_properties_ &s = w.soil(i + 1); double th = o_theta(psi, s); REQ(g[i].layer == i + 1 && g[i].bot && g[i].depth == w.cum[i + 1] && g[i].psi == psi && close_(g[i].theta, th, 1e-10) && close_(g[i].K, o_K(o_setheta(th, s), s.Ksat_cm_per_h * w.ff[i + 1], s.vg_m), 1e-7, 1e-14), "layer %d: %s (psi %g theta %.10g)", i + 1, show(g).c_str(), psi, th); }
}

static void c22(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 3, 0); const soil_properties_ &s = w.soil(w.head->layer_num); bool closed = r.p(0.5); double dt = r.lu(0.01, 1), dd = -1, del = -1, G = -1, Ks = s.Ksat_cm_per_h * w.ff[w.head->layer_num], th = w.head->theta; int nint = r.i(20, 150);
  double a = s.theta_r + (s.theta_e - s.theta_r) * r.u(0.01, 0.98), b = a + (s.theta_e - a) * r.u(0, 1), G2 = -1; if (r.p(0.2)) b = s.theta_e;
  if (!call([&] { G = calc_Geff(closed, th, s.theta_e, s.theta_e, s.theta_r, s.vg_alpha_per_cm, s.vg_n, s.vg_m, s.h_min_cm, Ks, nint, s.bc_lambda, s.bc_psib_cm); G2 = calc_Geff(closed, a, b, s.theta_e, s.theta_r, s.vg_alpha_per_cm, s.vg_n, s.vg_m, s.h_min_cm, Ks, nint, s.bc_lambda, s.bc_psib_cm);
        dd = lgar_calc_dry_depth(closed, nint, dt, &del, w.stv(), w.cumv(), w.ffv(), w.head, w.spv()); })) fail("aborted");
  REQ(G >= 0 && G2 >= -1e-12, "capillary drive %.12g %.12g (theta %g..%g)", G, G2, a, b); double tau = dt * Ks / (s.theta_e - th), e = fmin(w.cum[w.head->layer_num], 0.5 * (tau + sqrt(tau * tau + 4 * tau * G)));
  REQ(close_(del, s.theta_e - th, 1e-12), "delta theta"); REQ(close_(dd, e, 1e-9), "dry depth %.12g expected %.12g", dd, e); REQ(dd >= 0 && dd <= w.cum[w.head->layer_num], "dry depth %g", dd);
}

static void c23(Rng &r) {
  World w = rand_world(r); rand_profile(r, w, 4);
  int pert = r.i(0, 2); for (auto c = w.head; c; c = c->next) if (pert && c->next && c->next->layer_num == c->layer_num && r.p(0.4)) { c->theta = r.p(0.2) ? c->next->theta : c->next->theta - r.u(0, 0.5) * (c->next->theta - w.soil(c->layer_num).theta_r); }
  Prof p0 = snap(w.head), e = p0; double ec = o_fixdry(e, w), ch0 = r.u(0, 1), ch = ch0; bool has = false, got = false; for (size_t i = 0; i + 1 < p0.size(); i++) if (p0[i].layer == p0[i + 1].layer && p0[i].theta <= p0[i + 1].theta) has = true;
  if (!call([&] { got = lgar_check_dry_over_wet_wetting_fronts(w.head); lgar_fix_dry_over_wet_wetting_fronts(&ch, w.cumv(), w.stv(), &w.head, w.spv()); })) fail("aborted (%s)", last_end.c_str());
  REQ(got == has, "check reports %d", got); Prof g = snap(w.head); cmp_prof(g, e, "fix dry over wet"); check_numbered(w.head, "fix dry over wet"); REQ(close_(ch - ch0, ec, 1e-8, 1e-9), "mass change %.12g expected %.12g", ch - ch0, ec);
}

static void c24(Rng &r) {
  int lines = r.i(1, 20), maxs = r.i(1, 15); std::string fn = scratch + "/soil.dat"; std::vector<soil_properties_> v; std::vector<std::string> names;
  { FILE *f = fopen(fn.c_str(), "w"); fprintf(f, "\"Texture theta_r theta_e alpha n Ks\"\n"); for (int i = 0; i < lines; i++) { soil_properties_ s; rand_soil(r, s); char b[300]; int len = r.p(0.2) ? 24 : r.i(1, 20); std::string nm; for (int k = 0; k < len; k++) nm += (char)('a' + r.i(0, 25)); snprintf(b, sizeof b, "%s\t%.9g\t%.9g %.9g\t%.9g\t\t%.9g\n", nm.c_str(), s.theta_r, s.theta_e, s.vg_alpha_per_cm, s.vg_n, s.Ksat_cm_per_h); fputs(b, f); sscanf(b, "%*s %lf %lf %lf %lf %lf", &s.theta_r, &s.theta_e, &s.vg_alpha_per_cm, &s.vg_n, &s.Ksat_cm_per_h); v.push_back(s); names.push_back(nm); } fclose(f); }
  soil_properties_ *sp = new soil_properties_[maxs + 1]; memset((void *)sp, 0x5a, sizeof(soil_properties_) * (maxs + 1)); std::vector<char> sent((char *)sp, (char *)(sp + maxs + 1)); int n = -1; double wp = r.u(5000, 20000);
  if (!call([&] { n = lgar_read_vG_param_file(fn.c_str(), maxs, wp, sp); })) fail("ended (%s)", last_end.c_str());
  int e = std::min(lines, maxs); REQ(n == e, "returned %d, expected %d", n, e); REQ(!memcmp(sp, sent.data(), sizeof *sp), "slot 0 written");
  for (int i = 1; i <= e; i++) { soil_properties_ x = v[i - 1]; double m = 1 - 1 / x.vg_n, p = 1 + 2 / m, lam = 2 / (p - 3), pb = (p + 3) * (147.8 + 8.1 * p + 0.092 * p * p) / (2 * x.vg_alpha_per_cm * p * (p - 1) * (55.6 + 7.4 * p + p * p)); x.vg_m = m;
    REQ(sp[i].theta_r == x.theta_r && sp[i].theta_e == x.theta_e && sp[i].vg_alpha_per_cm == x.vg_alpha_per_cm && sp[i].vg_n == x.vg_n && sp[i].Ksat_cm_per_h == x.Ksat_cm_per_h && names[i - 1] == sp[i].soil_name, "slot %d parameters", i);
    REQ(close_(sp[i].vg_m, m, 1e-12) && close_(sp[i].bc_lambda, lam, 1e-9) && close_(sp[i].bc_psib_cm, pb, 1e-9) && close_(sp[i].h_min_cm, pb * (2 + 3 / lam) / (1 + 3 / lam), 1e-9), "slot %d derived: m %.10g (%.10g) lambda %.10g (%.10g) psib %.10g (%.10g) hmin %.10g", i, sp[i].vg_m, m, sp[i].bc_lambda, lam, sp[i].bc_psib_cm, pb, sp[i].h_min_cm);
    REQ(close_(sp[i].theta_wp, o_theta(wp, x), 1e-9), "slot %d wilting point moisture %.10g expected %.10g", i, sp[i].theta_wp, o_theta(wp, x)); }
  for (int i = e + 1; i <= maxs; i++) REQ(!memcmp(&sp[i], sent.data() + i * sizeof *sp, sizeof *sp), "slot %d written", i);
  delete[] sp;
}

CaseFn case_for(const std::string &p) {
  static const std::pair<const char *, CaseFn> t[] = {{"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C14", c14}, {"C15", c15}, {"C20", c20}, {"C22", c22}, {"C23", c23}, {"C24", c24}};
  for (auto &x : t) if (p == x.first) return x.second; return nullptr;
}
