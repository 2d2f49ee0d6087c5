// Replay harness: random inputs through the compiled code of /repo, judged by independent oracles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <fstream>
#include <functional>
#include <algorithm>
#include <csetjmp>
#include "bmi_lgar.hxx"

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  double lu(double a, double b) { return exp(u(log(a), log(b))); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool p(double q) { return u() < q; }
};

struct Fail { std::string msg; };
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQ(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
bool close_(double a, double b, double rel = 1e-9, double abs_ = 1e-10);

// runs f; true if it returned, false if the code under test ended with abort/exit/assert/exception
extern std::string last_end;
bool call(std::function<void()> f);

struct Front { double depth, theta, psi, K, dzdt; int layer, num; bool bot; const wetting_front *p; };
typedef std::vector<Front> Prof;
Prof snap(wetting_front *h);
bool same(const Front &a, const Front &b, bool dz = true, bool num = true);
std::string show(const Prof &p);
void check_numbered(wetting_front *h, const char *where);

struct World {
  int L; std::vector<double> cum, ff; std::vector<int> st; std::vector<soil_properties_> sp; wetting_front *head = nullptr;
  double *cumv() { return cum.data(); } double *ffv() { return ff.data(); } int *stv() { return st.data(); } soil_properties_ *spv() { return sp.data(); }
  const soil_properties_ &soil(int layer) const { return sp[st[layer]]; }
};
void rand_soil(Rng &r, soil_properties_ &s);
World rand_world(Rng &r, int maxL = 4);
wetting_front *mk(double d, double th, int layer, int num, bool bot, double psi, double K, double dzdt);
void rand_profile(Rng &r, World &w, int maxmov = 3, double psat = 0.1);

double o_theta(double h, const soil_properties_ &s);
double o_se(double h, const soil_properties_ &s);
double o_K(double Se, double Ks, double m);
double o_h(double Se, const soil_properties_ &s);
double o_setheta(double th, const soil_properties_ &s);
double o_geff(bool closed, double th1, double th2, const soil_properties_ &s, double Ks, int nint);
double o_store(const Prof &p, const std::vector<double> &cum);
void o_merge(Prof &p, const World &w);
void o_cross(Prof &p, const World &w); extern double o_cross_gap;
double o_domain(Prof &p, const World &w);
double o_fixdry(Prof &p, const World &w);
int o_freedrain(const Prof &p);
void cmp_prof(const Prof &got, const Prof &exp, const char *where, bool dz = true);

typedef void (*CaseFn)(Rng &);
CaseFn case_for(const std::string &pid);
CaseFn bmi_case_for(const std::string &pid);
extern std::string scratch;
extern int out_fd;
extern bool long_case;
