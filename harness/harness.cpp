#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <ctime>
#include <sanitizer/common_interface_defs.h>

void bmi_report(char *, int);
std::string scratch, last_end, g_pid;
int out_fd = 1;
bool long_case = false;
static long g_case = -1; static uint64_t g_seed = 0;
static sigjmp_buf jb; static volatile bool armed = false; static volatile int how = 0; static const char *volatile assert_text = "";
static void say(const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); if (n > (int)sizeof b) n = sizeof b; (void)!write(out_fd, b, n); }

extern "C" {
  void __real_abort(void); void __real_exit(int); void __real___assert_fail(const char *, const char *, unsigned, const char *);
  void __wrap_abort(void) { if (armed) { how = 1; siglongjmp(jb, 1); } __real_abort(); }
  void __wrap_exit(int c) { if (armed) { how = 2; siglongjmp(jb, 1); } __real_exit(c); }
  void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (armed) { how = 3; assert_text = e; siglongjmp(jb, 1); } __real___assert_fail(e, f, l, fn); }
}
void fail(const char *fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); throw Fail{b}; }
bool close_(double a, double b, double rel, double ab) { if (std::isnan(a) || std::isnan(b)) return false; return a == b || fabs(a - b) <= ab + rel * fmax(fabs(a), fabs(b)); }

bool call(std::function<void()> f) {
  how = 0;
  if (sigsetjmp(jb, 1) == 0) {
    armed = true;
    try { f(); } catch (const Fail &) { armed = false; throw; } catch (const std::exception &e) { armed = false; last_end = std::string("exception ") + e.what(); return false; }
    armed = false; return true;
  }
  armed = false;
  last_end = how == 1 ? std::string("abort") : how == 2 ? "exit" : how == 3 ? std::string("assert ") + assert_text : "hang";
  if (how == 4 && !long_case) fail("the call does not return (time limit)");
  return false;
}
static void on_alarm(int) { if (armed) { how = 4; siglongjmp(jb, 1); } say("FAIL %s case %ld seed %lu: time limit outside a guarded call\n", g_pid.c_str(), g_case, g_seed); _exit(3); }
static void on_death() { say("FAIL %s case %ld seed %lu: memory error (AddressSanitizer) while running the real code\n", g_pid.c_str(), g_case, g_seed); }

int main(int argc, char **argv) {
  g_pid = argv[1]; g_seed = strtoull(argv[2], 0, 10); long n = atol(argv[3]); double secs = atof(argv[4]);
  long first = argc > 5 ? atol(argv[5]) : 0;
  out_fd = dup(1);
  int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
  if (!getenv("HSHOW")) { if (argc > 6) {} }
  char tmpl[] = "/tmp/lgarscrXXXXXX"; scratch = mkdtemp(tmpl);
  __sanitizer_set_death_callback(on_death);
  signal(SIGALRM, on_alarm);
  CaseFn c = case_for(g_pid), b = bmi_case_for(g_pid);
  if (!c && !b) { say("NOCASE %s\nCASES 0\n", g_pid.c_str()); rmdir(scratch.c_str()); return 0; }
  auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
  double t0 = now(); int bad = 0; long done = 0;
  for (long k = first; k < first + n && now() - t0 < secs && bad < 3; k++) {
    g_case = k;
    Rng r(g_seed * 1000003ULL + k);
    CaseFn f = (c && b) ? (k % 8 == 7 ? b : c) : (c ? c : b);
    long_case = f == b; 
    alarm(long_case ? 20 : 10);
    try { f(r); } catch (const Fail &e) { bad++; say("FAIL %s case %ld seed %lu: %s\n", g_pid.c_str(), k, g_seed, e.msg.c_str()); }
    alarm(0);
    done++;
  }
  char rep[300]; bmi_report(rep, sizeof rep); if (b) say("MODEL RUNS %s\n", rep);
  say("CASES %ld\n", done);
  std::string rm = scratch + "/cfg.txt"; unlink(rm.c_str()); rm = scratch + "/soil.dat"; unlink(rm.c_str()); rm = scratch + "/out.txt"; unlink(rm.c_str()); rmdir(scratch.c_str());
  _exit(bad ? 3 : 0);
}
