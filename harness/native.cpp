// Native implementation of the harness interface: replays one assignment.
// usage: replay HARNESS INPUTFILE    exit 0 = all assertions held,
// 10 = an assertion failed, 11 = an assumption did not hold, other = crash.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctime>
#include "vf.h"
static std::map<std::string, std::vector<double>> in;
static std::map<std::string, int> idx;
// --random mode: concretise an obligation the solver left open
static bool rnd = false;
static uint64_t rs = 88172645463325252ull;
static char *logbuf = nullptr;
static size_t loglen = 0;
static const size_t LOGMAX = 1 << 20;
static uint64_t r64() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static double u01() { return (r64() >> 11) * (1.0 / 9007199254740992.0); }
static std::vector<double> hist;
static double gen(char kind, double lo, double hi) {
  double v;
  if (kind == 'i') return lo + (double)(r64() % (uint64_t)(hi - lo + 1));
  if (kind == 'g') { int r = r64() % 12; return r == 0 ? 0.0 : r == 1 ? 1.0 : r == 2 ? -1.0 : (u01() * 2 - 1) * (r == 3 ? 1e-3 : 1); }
  int r = r64() % 20;
  if (kind == 'a') {  // any float
    static const float sp[] = {0.f, -0.f, 1.f, -1.f, 2.f, 0.5f, INFINITY, -INFINITY, NAN, 3.4e38f, -3.4e38f, 1e-40f, 1e-10f, 16777216.f};
    if (r < 5) return sp[r64() % 14];
    if (r < 8 && !hist.empty()) return hist[r64() % hist.size()];
    if (r < 10) { uint32_t b = (uint32_t)r64(); float f; memcpy(&f, &b, 4); return f; }
    return (u01() * 2 - 1) * (r < 15 ? 10 : 1000);
  }
  static const double nice[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, 1.5707963267948966, -1.5707963267948966, 3.141592653589793, -3.141592653589793, 1e-3, -1e-3, 1e-5, 0.1, -0.1, 10, 100};
  if (r == 0) v = lo;
  else if (r == 1) v = hi;
  else if (r < 6) v = nice[r64() % (sizeof nice / sizeof *nice)];
  else if (r == 6 && !hist.empty()) v = hist[r64() % hist.size()];
  else if (r == 7 && !hist.empty()) v = hist[r64() % hist.size()] * (1 + (u01() - 0.5) * 1e-3);
  else if (r < 10) v = (u01() * 2 - 1) * 3;
  else if (r == 10) v = (u01() * 2 - 1) * 1e-2;
  else v = lo + (hi - lo) * u01();
  if (!(v >= lo && v <= hi)) v = lo + (hi - lo) * u01();
  return v;
}
static const std::vector<double> *get(const char *name, char kind = 'f', double lo = 0, double hi = 0, int n = 1) {
  std::string id = name;
  for (char &c : id) if (c == ' ') c = '_';
  int k = idx[id]++;
  std::string key = std::string(name) + "#" + std::to_string(k);
  for (char &c : key) if (c == ' ') c = '_';
  if (rnd) {
    std::vector<double> v;
    for (int i = 0; i < n; ++i) { double x = gen(kind, lo, hi); if (kind == 'f' || kind == 'a') { x = (float)x; hist.push_back(x); } v.push_back(x); }
    loglen += snprintf(logbuf + loglen, LOGMAX - loglen, "IN %s", key.c_str());
    for (double x : v) loglen += snprintf(logbuf + loglen, LOGMAX - loglen, " %a", x);
    loglen += snprintf(logbuf + loglen, LOGMAX - loglen, "\n");
    if (loglen > LOGMAX - 4096) _Exit(11);
    in[key] = v;
  }
  auto it = in.find(key);
  return it == in.end() ? nullptr : &it->second;
}
static int failed = 0;
extern "C" {
float vf_real(const char *n, double lo, double hi) {
  auto p = get(n, 'f', lo, hi);
  double v = p ? (*p)[0] : (lo > 0 ? lo : hi < 0 ? hi : 0);
  float f = (float)v;
  if (f > hi) f = std::nextafterf(f, -INFINITY);
  if (f < lo) f = std::nextafterf(f, INFINITY);
  return f;
}
double vf_dreal(const char *n, double lo, double hi) {
  auto p = get(n, 'f', lo, hi);
  return p ? (*p)[0] : (lo > 0 ? lo : hi < 0 ? hi : 0);
}
float vf_float(const char *n) { auto p = get(n, 'a'); return p ? (float)(*p)[0] : 0.f; }
float vf_angle(const char *n, double lo, double hi, int) { return vf_real(n, lo, hi); }
int vf_int(const char *n, int lo, int hi) { auto p = get(n, 'i', lo, hi); return p ? (int)(*p)[0] : (lo > 0 ? lo : hi < 0 ? hi : 0); }
int vf_choice(const char *n, int k) { auto p = get(n, 'i', 0, k - 1); int v = p ? (int)(*p)[0] : 0; return v < 0 ? 0 : v >= k ? k - 1 : v; }
void vf_unitn(const char *n, int k, float *out) {
  auto p = get(n, 'g', 0, 0, k);
  double v[8], s = 0;
  for (int i = 0; i < k; ++i) { v[i] = p ? (*p)[i] : (i == 0); s += v[i] * v[i]; }
  s = std::sqrt(s);
  if (!(s > 1e-12)) { for (int i = 0; i < k; ++i) v[i] = (i == 0); s = 1; }
  for (int i = 0; i < k; ++i) out[i] = (float)(v[i] / s);
}
void vf_assume(bool c) { if (!c && !failed) { printf("ASSUME\n"); fflush(stdout); _Exit(11); } else if (!c) { fflush(stdout); _Exit(10); } }
void vf_assert(bool c, const char *w) { if (!c) { failed = 1; printf("FAIL %s\n", w); } }
void vf_close(double a, double b, double tol, const char *w) {
  if (!(std::fabs(a - b) <= tol || a == b)) { failed = 1; printf("FAIL %s: got %.9g expected %.9g (tolerance %g)\n", w, a, b, tol); }
  else if (getenv("VF_TRACE")) printf("VAL %.17g %.17g %s\n", a, b, w);
}
void vf_same(float a, float b, const char *w) {
  if (!(a == b || (a != a && b != b))) { failed = 1; printf("FAIL %s: got %.9g expected %.9g\n", w, a, b); }
}
void vf_bound(double, double, double) {}
double vf_fact(double x, double, double) { return x; }
int vf_symbolic(void) { return 0; }
void vf_reach(const char *) {}
void vf_lazy(int) {}
void vf_root(double) {}
double vf_qshift(const char *n, int k, int sg, double, double, float *out) { vf_unitn(n, 4, out); return out[0] + sg * out[k]; }
}
#include <new>
#ifndef VF_SAN
void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0x5a, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
#endif
__attribute__((noinline)) static void poison() { volatile char b[65536]; for (unsigned i = 0; i < sizeof b; ++i) b[i] = 0x5a; }
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  if (!strcmp(argv[2], "--random")) {
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { printf("NOHARNESS %s\n", argv[1]); return 2; }
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    long n = strtol(argv[4], nullptr, 10);
    double secs = strtod(argv[5], nullptr);
    time_t t0 = time(nullptr);
    logbuf = (char *)mmap(nullptr, LOGMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (long i = 0; i < n && difftime(time(nullptr), t0) < secs; ++i) {
      logbuf[0] = 0;
      fflush(stdout);
      pid_t c = fork();
      if (!c) {
        alarm(20);
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        rnd = true; rs = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull + (uint64_t)i * 0xD1B54A32D192ED03ull);
        for (int k = 0; k < 8; ++k) r64();
        poison();
        try { h(); } catch (...) { _Exit(10); }
        _Exit(failed ? 10 : 0);
      }
      int st = 0;
      waitpid(c, &st, 0);
      if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 11)) continue;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) continue;
      printf("%s", logbuf);
      return 10;
    }
    return 0;
  }
  FILE *f = fopen(argv[2], "r");
  if (!f) return 2;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char *save;
    char *k = strtok_r(line, " \n", &save);
    if (!k || *k == '!') continue;
    std::vector<double> v;
    for (char *t; (t = strtok_r(nullptr, " \n", &save));) v.push_back(strtod(t, nullptr));
    in[k] = v;
  }
  fclose(f);
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!h) { printf("NOHARNESS %s\n", argv[1]); return 2; }
  poison();
  try { h(); } catch (std::exception &e) { printf("FAIL uncaught exception: %s\n", e.what()); fflush(stdout); _Exit(10); }
  catch (...) { printf("FAIL uncaught exception\n"); fflush(stdout); _Exit(10); }
  fflush(stdout);
  _Exit(failed ? 10 : 0);
}
